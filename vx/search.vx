## Contracts for the searches of algorithms.rs (C16)
@@ modend algorithms
/// a position found by bisection of [s, e): the answer next to it is `lo` before it and `hi` from it on
pub open spec fn vx_cut_at<T, R, F: FnMut(&T) -> R>(f: F, v: Seq<T>, s: int, e: int, i: int, lo: R, hi: R) -> bool {
    s <= i <= e && (i > s ==> f.ensures((&v[i - 1],), lo)) && (i < e ==> f.ensures((&v[i],), hi))
}
pub open spec fn vx_all<T, R, F: FnMut(&T) -> R>(f: F, v: Seq<T>) -> bool { forall|k: int| 0 <= k < v.len() ==> #[trigger] f.requires((&v[k],)) }
/// what `Ord` asks of an element type's comparison: it answers by a relation that turns round with its operands
pub open spec fn vx_turned(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn vx_ordlaw<T: Ord>() -> bool {
    <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec()
        && forall|a: T, b: T| #[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == vx_turned(vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a))
}
@@ fn binary_search
@closure 1
&T; r: Ordering
    ensures vx_ordlaw::<T>() ==> r == vstd::std_specs::cmp::OrdSpec::cmp_spec($1, elt)
@spec
    requires v@.len() <= vx::maxlen(),
    ensures ret is Ok ==> ret->Ok_0 < v@.len(), ret is Err ==> ret->Err_0 <= v@.len(),
        vx_ordlaw::<T>() ==> {
            &&& ret is Ok ==> vstd::std_specs::cmp::OrdSpec::cmp_spec(&v@[ret->Ok_0 as int], elt) == Ordering::Equal
            &&& ret is Err && ret->Err_0 > 0 ==> vstd::std_specs::cmp::OrdSpec::cmp_spec(&v@[ret->Err_0 - 1], elt) == Ordering::Less
            &&& ret is Err && ret->Err_0 < v@.len() ==> vstd::std_specs::cmp::OrdSpec::cmp_spec(&v@[ret->Err_0 as int], elt) == Ordering::Greater
        },
@@ fn binary_search_by
@local range let mut $1 = v.range()
@opt loop_isolation false
@spec
    requires vx_all::<T, Ordering, F>(f, v@), v@.len() <= vx::maxlen(),
    ensures ret is Ok ==> ret->Ok_0 < v@.len() && f.ensures((&v@[ret->Ok_0 as int],), Ordering::Equal),
        ret is Err ==> vx_cut_at::<T, Ordering, F>(f, v@, 0, v@.len() as int, ret->Err_0 as int, Ordering::Less, Ordering::Greater),
@body
    let ghost vx_f0 = f; let ghost vx_v0 = v@;
@loop 1 any
        invariant f == vx_f0, v.wf(), range.ok(v.n()), v.cv() == vx_v0, vx_all::<T, Ordering, F>(f, vx_v0),
            range.start > 0 ==> f.ensures((&vx_v0[range.start - 1],), Ordering::Less),
            range.end < vx_v0.len() ==> f.ensures((&vx_v0[range.end as int],), Ordering::Greater),
        decreases range.end - range.start,
@@ fn binary_search_by_prange_
@local range let mut $1 = range.no_proof()
@opt loop_isolation false
@spec
    requires v.wf(), range.ok(v.n()), vx_all::<T, Ordering, F>(compare, v.cv()),
    ensures ret is Ok ==> ret->Ok_0.ok(v.n()) && range.s() <= ret->Ok_0.pos() < range.e() && compare.ensures((&v.cv()[ret->Ok_0.pos()],), Ordering::Equal),
        ret is Err ==> ret->Err_0.ok(v.n()) && vx_cut_at::<T, Ordering, F>(compare, v.cv(), range.s(), range.e(), ret->Err_0.pos(), Ordering::Less, Ordering::Greater),
@body
    let ghost vx_f0 = compare; let ghost vx_r = range;
@loop 1 any
        invariant compare == vx_f0, v.wf(), range.ok(v.n()), vx_all::<T, Ordering, F>(compare, v.cv()), vx_r.s() <= range.s(), range.e() <= vx_r.e(),
            range.s() > vx_r.s() ==> compare.ensures((&v.cv()[range.s() - 1],), Ordering::Less),
            range.e() < vx_r.e() ==> compare.ensures((&v.cv()[range.e()],), Ordering::Greater),
        decreases range.e() - range.s(),
@@ fn binary_search_by_prange
@spec
    requires vx_all::<T, Ordering, F>(compare, v@), v@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures ret is Ok ==> ret->Ok_0 < v@.len() && compare.ensures((&v@[ret->Ok_0 as int],), Ordering::Equal),
        ret is Err ==> vx_cut_at::<T, Ordering, F>(compare, v@, 0, v@.len() as int, ret->Err_0 as int, Ordering::Less, Ordering::Greater),
@@ fn lower_bound_prange_
@local range let mut $1 = range.no_proof()
@spec
    requires v.wf(), range.ok(v.n()), vx_all::<T, bool, F>(less_than, v.cv()),
    ensures ret.ok(v.n()), vx_cut_at::<T, bool, F>(less_than, v.cv(), range.s(), range.e(), ret.pos(), true, false),
@body
    let ghost vx_f0 = less_than; let ghost vx_r = range;
@loop 1 any
        invariant less_than == vx_f0, v.wf(), range.ok(v.n()), vx_all::<T, bool, F>(less_than, v.cv()), vx_r.s() <= range.s(), range.e() <= vx_r.e(),
            range.s() > vx_r.s() ==> less_than.ensures((&v.cv()[range.s() - 1],), true),
            range.e() < vx_r.e() ==> less_than.ensures((&v.cv()[range.e()],), false),
        ensures range.s() == range.e(),
        decreases range.e() - range.s(),
@@ fn binary_search_by_pslice_
@local range let mut $1 = range.no_proof()
@opt loop_isolation false
@spec
    requires v.wf(), range.ok(v.n()), vx_all::<T, Ordering, F>(compare, v.cv()),
    ensures ret is Ok ==> ret->Ok_0.ok(v.n()) && range.s() <= ret->Ok_0.pos() < range.e() && compare.ensures((&v.cv()[ret->Ok_0.pos()],), Ordering::Equal),
        ret is Err ==> ret->Err_0.ok(v.n()) && vx_cut_at::<T, Ordering, F>(compare, v.cv(), range.s(), range.e(), ret->Err_0.pos(), Ordering::Less, Ordering::Greater),
@body
    let ghost vx_f0 = compare; let ghost vx_r = range;
@loop 1 any
        invariant compare == vx_f0, v.wf(), range.ok(v.n()), vx_all::<T, Ordering, F>(compare, v.cv()), vx_r.s() <= range.s(), range.e() <= vx_r.e(),
            range.s() > vx_r.s() ==> compare.ensures((&v.cv()[range.s() - 1],), Ordering::Less),
            range.e() < vx_r.e() ==> compare.ensures((&v.cv()[range.e()],), Ordering::Greater),
        decreases range.e() - range.s(),
@@ fn binary_search_by_pslice
@spec
    requires vx_all::<T, Ordering, F>(compare, v@), v@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures ret is Ok ==> ret->Ok_0 < v@.len() && compare.ensures((&v@[ret->Ok_0 as int],), Ordering::Equal),
        ret is Err ==> vx_cut_at::<T, Ordering, F>(compare, v@, 0, v@.len() as int, ret->Err_0 as int, Ordering::Less, Ordering::Greater),
@@ fn lower_bound_pslice_
@local range let mut $1 = range.no_proof()
@spec
    requires v.wf(), range.ok(v.n()), vx_all::<T, bool, F>(less_than, v.cv()),
    ensures ret.ok(v.n()), vx_cut_at::<T, bool, F>(less_than, v.cv(), range.s(), range.e(), ret.pos(), true, false),
@body
    let ghost vx_f0 = less_than; let ghost vx_r = range;
@loop 1 any
        invariant less_than == vx_f0, v.wf(), range.ok(v.n()), vx_all::<T, bool, F>(less_than, v.cv()), vx_r.s() <= range.s(), range.e() <= vx_r.e(),
            range.s() > vx_r.s() ==> less_than.ensures((&v.cv()[range.s() - 1],), true),
            range.e() < vx_r.e() ==> less_than.ensures((&v.cv()[range.e()],), false),
        ensures range.s() == range.e(),
        decreases range.e() - range.s(),
@@ fn lower_bound_pslice
@spec
    requires vx_all::<T, bool, F>(f, v@), v@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures vx_cut_at::<T, bool, F>(f, v@, 0, v@.len() as int, ret as int, true, false),
@@ fn lower_bound
@local range let mut $1 = v.range()
@spec
    requires v@.len() <= vx::maxlen(),
    ensures ret <= v@.len(), <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==>
            (ret > 0 ==> vx_lt(v@[ret - 1], *elt)) && (ret < v@.len() ==> !vx_lt(v@[ret as int], *elt)),
@body
    let ghost vx_v0 = v@;
@loop 1 any
        invariant v.wf(), range.ok(v.n()), v.cv() == vx_v0,
            <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==>
                (range.start > 0 ==> vx_lt(vx_v0[range.start - 1], *elt)) && (range.end < v.n() ==> !vx_lt(vx_v0[range.end as int], *elt)),
        ensures range.start == range.end,
        decreases range.end - range.start,
@@ fn lower_bound_prange
@local range let mut $1 = v.pointer_range()
@spec
    requires v@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures ret <= v@.len(), <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==>
            (ret > 0 ==> vx_lt(v@[ret - 1], *elt)) && (ret < v@.len() ==> !vx_lt(v@[ret as int], *elt)),
@body
    let ghost vx_v0 = v@;
@loop 1 any
        invariant v.wf(), range.ok(v.n()), v.cv() == vx_v0,
            <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==>
                (range.s() > 0 ==> vx_lt(vx_v0[range.s() - 1], *elt)) && (range.e() < v.n() ==> !vx_lt(vx_v0[range.e() as int], *elt)),
        ensures range.s() == range.e(),
        decreases range.e() - range.s(),
@@ fn lower_bound_raw_ptr
@opt rawmem v
@opt rawref it
@spec
    requires v@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures ret <= v@.len(), <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==>
            (ret > 0 ==> vx_lt(v@[ret - 1], *elt)) && (ret < v@.len() ==> !vx_lt(v@[ret as int], *elt)),
@loop 1 any
        invariant v@.len() <= vx::maxlen(), vxp::good::<T>(start@.addr), vxp::po::<T>(start@.addr) + count <= v@.len(), vxp::fits::<T>(v@.len() as int),
            <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec() ==>
                (vxp::po::<T>(start@.addr) > 0 ==> vx_lt(v@[vxp::po::<T>(start@.addr) - 1], *elt)) && (vxp::po::<T>(start@.addr) + count < v@.len() ==> !vx_lt(v@[vxp::po::<T>(start@.addr) + count], *elt)),
        ensures count == 0,
        decreases count,
@loopbody 1
    assert(vxp::at::<T>(start@.addr, vxp::po::<T>(start@.addr))); assert(crate::container_traits::Trustworthy::tview(&v) == v@);
@@ fn ptrdistance
@spec
    requires vxp::good::<T>(from@.addr), vxp::good::<T>(to@.addr), from@.addr <= to@.addr,
    ensures ret == vxp::po::<T>(to@.addr) - vxp::po::<T>(from@.addr),
@body
    proof { vxp::lem_dist::<T>(to@.addr, from@.addr); }
@@ mod algorithms
use crate::vxp;
@@ modend algorithms
pub open spec fn vx_lt<T: PartialOrd>(a: T, b: T) -> bool { vx_cmp(a, b) == Some(Ordering::Less) }
/// data partitioned at b by a predicate: the position a lower bound search promises is exactly b
pub proof fn vx_lem_boundary<T, F: FnMut(&T) -> bool>(f: F, v: Seq<T>, s: int, e: int, b: int, i: int)
    requires 0 <= s <= b <= e <= v.len(), vx_cut_at::<T, bool, F>(f, v, s, e, i, true, false),
        forall|k: int| s <= k < b ==> !#[trigger] f.ensures((&v[k],), false), forall|k: int| b <= k < e ==> !#[trigger] f.ensures((&v[k],), true),
    ensures i == b,
{}
/// data in three runs (less, equal, greater): without an equal run the promised position is the insertion point,
/// and with one a binary search cannot answer Err
pub proof fn vx_lem_insertion_point<T, F: FnMut(&T) -> Ordering>(f: F, v: Seq<T>, s: int, e: int, lo: int, hi: int, i: int)
    requires 0 <= s <= lo <= hi <= e <= v.len(), vx_cut_at::<T, Ordering, F>(f, v, s, e, i, Ordering::Less, Ordering::Greater),
        forall|k: int, o: Ordering| s <= k < lo && #[trigger] f.ensures((&v[k],), o) ==> o == Ordering::Less,
        forall|k: int, o: Ordering| lo <= k < hi && #[trigger] f.ensures((&v[k],), o) ==> o == Ordering::Equal,
        forall|k: int, o: Ordering| hi <= k < e && #[trigger] f.ensures((&v[k],), o) ==> o == Ordering::Greater,
    ensures lo == hi, i == lo,
{}
/// a sorted slice is partitioned by `< elt`: lower_bound's promise determines the position
pub proof fn vx_lem_sorted_boundary<T: PartialOrd>(v: Seq<T>, elt: T, i: int)
    requires 0 <= i <= v.len(), i > 0 ==> vx_lt(v[i - 1], elt), i < v.len() ==> !vx_lt(v[i], elt),
        forall|j: int, k: int| 0 <= j < k < v.len() && #[trigger] vx_lt(v[k], elt) ==> #[trigger] vx_lt(v[j], elt),
    ensures forall|k: int| 0 <= k < i ==> #[trigger] vx_lt(v[k], elt), forall|k: int| i <= k < v.len() ==> !#[trigger] vx_lt(v[k], elt),
{}
