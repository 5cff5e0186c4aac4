## Contracts for the sorts of algorithms.rs (C13, C14, C21)
@@ modend algorithms
/// p lists 0..n, each exactly once
pub open spec fn vx_isperm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
}
/// b is a rearranged by p: b[k] is what was at p[k]
pub open spec fn vx_by<T>(p: Seq<int>, a: Seq<T>, b: Seq<T>) -> bool {
    p.len() == a.len() && b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[p[k]]
}
pub open spec fn vx_id(n: int) -> Seq<int> { Seq::new(n as nat, |k: int| k) }
/// l is a strict weak order on the positions [0, n) of the input
pub open spec fn vx_swo(l: spec_fn(int, int) -> bool, n: int) -> bool {
    (forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] l(i, j) ==> !l(j, i))
    && (forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && !#[trigger] l(i, j) && !#[trigger] l(j, k) ==> !l(i, k))
}
/// ... and what the ordering f answers about the elements of a never contradicts it
pub open spec fn vx_agrees<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, l: spec_fn(int, int) -> bool) -> bool {
    vx_swo(l, a.len() as int) && (forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] f.ensures((&a[i], &a[j]), true) ==> l(i, j))
        && (forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] f.ensures((&a[i], &a[j]), false) ==> !l(i, j))
}
/// positions [0, m) of the rearrangement are in order
pub open spec fn vx_sorted(l: spec_fn(int, int) -> bool, p: Seq<int>, m: int) -> bool { forall|i: int, j: int| 0 <= i < j < m ==> !l(#[trigger] p[j], #[trigger] p[i]) }
/// ... and those that are not ordered keep their original order
pub open spec fn vx_stable(l: spec_fn(int, int) -> bool, p: Seq<int>, m: int) -> bool { forall|i: int, j: int| 0 <= i < j < m && !l(p[i], p[j]) ==> #[trigger] p[i] < #[trigger] p[j] }
/// the first m positions are in order, the rest not touched
pub open spec fn vx_insu<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, p: Seq<int>, m: int) -> bool {
    vx_isperm(p, a.len() as int) && (forall|k: int| m <= k < a.len() ==> #[trigger] p[k] == k) && forall|l: spec_fn(int, int) -> bool| #[trigger] vx_agrees(f, a, l) ==> vx_sorted(l, p, m)
}
/// ... and stably so
pub open spec fn vx_ins<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, p: Seq<int>, m: int) -> bool {
    vx_isperm(p, a.len() as int) && (forall|k: int| m <= k < a.len() ==> #[trigger] p[k] == k) && forall|l: spec_fn(int, int) -> bool| #[trigger] vx_agrees(f, a, l) ==> vx_sorted(l, p, m) && vx_stable(l, p, m)
}
pub open spec fn vx_all2<T, F: FnMut(&T, &T) -> bool>(f: F, v: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> #[trigger] f.requires((&v[i], &v[j])) }
/// one rotation, as a permutation
pub proof fn vx_lem_turn<T>(a: Seq<T>, v: Seq<T>, p: Seq<int>, m: int, t: int)
    requires 0 <= t <= m < a.len(), vx_isperm(p, a.len() as int), vx_by(p, a, v),
    ensures ({ let q = vx_rot_up(p, t, m + 1); vx_isperm(q, a.len() as int) && vx_by(q, a, vx_rot_up(v, t, m + 1))
        && forall|k: int| 0 <= k < a.len() ==> #[trigger] q[k] == if t < k <= m { p[k - 1] } else if k == t { p[m] } else { p[k] } }),
{
    let q = vx_rot_up(p, t, m + 1); let n = a.len() as int; let w = vx_rot_up(v, t, m + 1);
    assert(forall|k: int| 0 <= k < n ==> #[trigger] q[k] == if t < k <= m { p[k - 1] } else if k == t { p[m] } else { p[k] });
    assert(forall|k: int| 0 <= k < n ==> #[trigger] w[k] == if t < k <= m { v[k - 1] } else if k == t { v[m] } else { v[k] });
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] q[i] != #[trigger] q[j] by {
        let fi = if t < i <= m { i - 1 } else if i == t { m } else { i }; let fj = if t < j <= m { j - 1 } else if j == t { m } else { j };
        assert(q[i] == p[fi] && q[j] == p[fj] && fi != fj);
    }
    assert(vx_isperm(q, n));
    assert(vx_by(q, a, w));
}
/// inserting position m at t, before exactly the elements it is less than
pub proof fn vx_lem_insert<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, v: Seq<T>, p: Seq<int>, m: int, t: int) -> (q: Seq<int>)
    requires 0 <= t <= m < a.len(), vx_ins(f, a, p, m), vx_by(p, a, v),
        forall|k: int| t <= k < m ==> f.ensures((&v[m], &#[trigger] v[k]), true),
        t > 0 ==> f.ensures((&v[m], &v[t - 1]), false),
    ensures q == vx_rot_up(p, t, m + 1), vx_ins(f, a, q, m + 1), vx_by(q, a, vx_rot_up(v, t, m + 1)),
{
    let q = vx_rot_up(p, t, m + 1);
    assert(p[m] == m);
    vx_lem_turn(a, v, p, m, t);
    assert forall|l: spec_fn(int, int) -> bool| #[trigger] vx_agrees(f, a, l) implies vx_sorted(l, q, m + 1) && vx_stable(l, q, m + 1) by {
        assert forall|k: int| t <= k < m implies l(m, #[trigger] p[k]) by { assert(v[k] == a[p[k]]); assert(f.ensures((&a[m], &a[p[k]]), true)); }
        if t > 0 {
            assert(f.ensures((&a[m], &a[p[t - 1]]), false));
            assert(!l(m, p[t - 1]));
            assert forall|k: int| 0 <= k < t implies !l(m, #[trigger] p[k]) by {
                if k < t - 1 { assert(!l(p[t - 1], p[k])); }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < m + 1 implies !l(#[trigger] q[j], #[trigger] q[i]) by {
            if i == t { assert(l(m, p[j - 1])); } else if j == t { assert(q[i] == p[i]); } else {
                let fi = if t < i { i - 1 } else { i }; let fj = if t < j { j - 1 } else { j };
                assert(q[i] == p[fi] && q[j] == p[fj] && fi < fj < m);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < m + 1 && !l(q[i], q[j]) implies #[trigger] q[i] < #[trigger] q[j] by {
            if i == t { assert(l(m, p[j - 1])); } else if j == t { assert(q[i] == p[i]); assert(p[i] < m) by { vx_lem_low(p, m, i); } } else {
                let fi = if t < i { i - 1 } else { i }; let fj = if t < j { j - 1 } else { j };
                assert(q[i] == p[fi] && q[j] == p[fj] && fi < fj < m);
            }
        }
    }
    q
}
/// when the rest is not touched, the first m places hold the first m
pub proof fn vx_lem_low(p: Seq<int>, m: int, i: int)
    requires 0 <= i < m <= p.len(), vx_isperm(p, p.len() as int), forall|k: int| m <= k < p.len() ==> #[trigger] p[k] == k,
    ensures p[i] < m,
{
    if p[i] >= m { let x = p[i]; assert(p[x] == x); assert(p[i] != p[x]); }
}
/// the same when the place was found from the other end: everything before t is less than it
pub proof fn vx_lem_insert_low<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, v: Seq<T>, p: Seq<int>, m: int, t: int) -> (q: Seq<int>)
    requires 0 <= t <= m < a.len(), vx_insu(f, a, p, m), vx_by(p, a, v),
        t > 0 ==> f.ensures((&v[t - 1], &v[m]), true), t < m ==> f.ensures((&v[t], &v[m]), false),
    ensures q == vx_rot_up(p, t, m + 1), vx_insu(f, a, q, m + 1), vx_by(q, a, vx_rot_up(v, t, m + 1)),
{
    let q = vx_rot_up(p, t, m + 1);
    assert(p[m] == m);
    vx_lem_turn(a, v, p, m, t);
    assert forall|l: spec_fn(int, int) -> bool| #[trigger] vx_agrees(f, a, l) implies vx_sorted(l, q, m + 1) by {
        assert forall|k: int| 0 <= k < t implies !l(m, #[trigger] p[k]) by {
            assert(f.ensures((&a[p[t - 1]], &a[m]), true)); assert(l(p[t - 1], m)); assert(!l(m, p[t - 1]));
            if k < t - 1 { assert(!l(p[t - 1], p[k])); }
        }
        assert forall|k: int| t <= k < m implies !l(#[trigger] p[k], m) by {
            assert(f.ensures((&a[p[t]], &a[m]), false)); assert(!l(p[t], m));
            if t < k { assert(!l(p[k], p[t])); }
        }
        assert forall|i: int, j: int| 0 <= i < j < m + 1 implies !l(#[trigger] q[j], #[trigger] q[i]) by {
            if i == t { assert(!l(p[j - 1], m)); } else if j == t { assert(q[i] == p[i]); } else {
                let fi = if t < i { i - 1 } else { i }; let fj = if t < j { j - 1 } else { j };
                assert(q[i] == p[fi] && q[j] == p[fj] && fi < fj < m);
            }
        }
    }
    q
}
@@ modend algorithms
/// the insertion step, for whatever position the element went to
pub proof fn vx_lem_insert_at<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, v: Seq<T>, w: Seq<T>, p: Seq<int>, m: int) -> (q: Seq<int>)
    requires 0 <= m < a.len(), vx_ins(f, a, p, m), vx_by(p, a, v),
        exists|t: int| 0 <= t <= m && w == #[trigger] vx_rot_up(v, t, m + 1) && (forall|k: int| t <= k < m ==> f.ensures((&v[m], &#[trigger] v[k]), true)) && (t > 0 ==> f.ensures((&v[m], &v[t - 1]), false)),
    ensures vx_ins(f, a, q, m + 1), vx_by(q, a, w),
{
    let t = choose|t: int| 0 <= t <= m && w == #[trigger] vx_rot_up(v, t, m + 1) && (forall|k: int| t <= k < m ==> f.ensures((&v[m], &#[trigger] v[k]), true)) && (t > 0 ==> f.ensures((&v[m], &v[t - 1]), false));
    vx_lem_insert(f, a, v, p, m, t)
}
/// the same with a second sequence moved alongside
pub proof fn vx_lem_insert2_at<T, U, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, v: Seq<T>, w: Seq<T>, b: Seq<U>, u: Seq<U>, x: Seq<U>, p: Seq<int>, m: int) -> (q: Seq<int>)
    requires 0 <= m < a.len(), a.len() == b.len(), vx_ins(f, a, p, m), vx_by(p, a, v), vx_by(p, b, u),
        exists|t: int| 0 <= t <= m && w == #[trigger] vx_rot_up(v, t, m + 1) && x == #[trigger] vx_rot_up(u, t, m + 1) && (forall|k: int| t <= k < m ==> f.ensures((&v[m], &#[trigger] v[k]), true)) && (t > 0 ==> f.ensures((&v[m], &v[t - 1]), false)),
    ensures vx_ins(f, a, q, m + 1), vx_by(q, a, w), vx_by(q, b, x),
{
    let t = choose|t: int| 0 <= t <= m && w == #[trigger] vx_rot_up(v, t, m + 1) && x == #[trigger] vx_rot_up(u, t, m + 1) && (forall|k: int| t <= k < m ==> f.ensures((&v[m], &#[trigger] v[k]), true)) && (t > 0 ==> f.ensures((&v[m], &v[t - 1]), false));
    let q = vx_lem_insert(f, a, v, p, m, t);
    assert(vx_by(q, b, x));
    q
}
pub proof fn vx_lem_insert_low_at<T, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, v: Seq<T>, w: Seq<T>, p: Seq<int>, m: int) -> (q: Seq<int>)
    requires 0 <= m < a.len(), vx_insu(f, a, p, m), vx_by(p, a, v),
        exists|t: int| 0 <= t <= m && w == #[trigger] vx_rot_up(v, t, m + 1) && (t > 0 ==> f.ensures((&v[t - 1], &v[m]), true)) && (t < m ==> f.ensures((&v[t], &v[m]), false)),
    ensures vx_insu(f, a, q, m + 1), vx_by(q, a, w),
{
    let t = choose|t: int| 0 <= t <= m && w == #[trigger] vx_rot_up(v, t, m + 1) && (t > 0 ==> f.ensures((&v[t - 1], &v[m]), true)) && (t < m ==> f.ensures((&v[t], &v[m]), false));
    vx_lem_insert_low(f, a, v, p, m, t)
}
@@ fn insertion_sort_indexes
@opt fnbound
@spec
    requires vx_all2::<T, F>(less_than, old(v)@), old(v)@.len() <= vx::maxlen(),
    ensures exists|p: Seq<int>| vx_by(p, old(v)@, final(v)@) && #[trigger] vx_ins(less_than, old(v)@, p, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n);
@loopdesugar 1 it crate::Range::into_iter
@loop 1 for
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, it.wf(), it.end == vx_n, vx_v0.len() == vx_n, vx_all2::<T, F>(less_than, vx_v0), 
            vx_ins(less_than, vx_v0, vx_p, it.start as int), vx_by(vx_p, vx_v0, v.cv()),
        ensures it.start == vx_n,
        decreases it.end - it.start,
@closure 1
&T; r: bool
    requires v.wf(), i.ok(v.n()), less_than.requires((&v.cv()[i.index as int], $1)),
    ensures less_than.ensures((&v.cv()[i.index as int], $1), r)
@loopbody 1
    // present when the comparisons are made (the closure only reads)
    proof { assert(vx_arranged(vx_p, vx_v0, v.cv())); }
    let ghost vx_v1 = v.cv();
@loopend 1
    proof { let m = i.index as int; assert(vx_v1 =~= vx_rot_up(vx_v1, m, m + 1)); vx_p = vx_lem_insert_at(less_than, vx_v0, vx_v1, v.cv(), vx_p, m); }
@@ fn insertion_sort2_indexes
@opt fnbound
@spec
    requires vx_all2::<T, F>(less_than, old(v)@), old(v)@.len() <= vx::maxlen(), old(u)@.len() == old(v)@.len(),
    ensures exists|p: Seq<int>| vx_by(p, old(v)@, final(v)@) && vx_by(p, old(u)@, final(u)@) && #[trigger] vx_ins(less_than, old(v)@, p, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n); let ghost vx_u0 = u@; let ghost vx_y = final(u)@;
@loopdesugar 1 it crate::Range::into_iter
@loop 1 for
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, vx_all2::<T, F>(less_than, vx_v0), vx_by(vx_p, vx_v0, v.cv()), it.wf(), it.end == vx_n,
            u.wf(), u.vx_fut() == vx_y, vx_u0.len() == vx_n, vx_by(vx_p, vx_u0, u.cv()),
            vx_ins(less_than, vx_v0, vx_p, it.start as int),
        ensures it.start == vx_n,
        decreases it.end - it.start,
@closure 1
&T; r: bool
    requires v.wf(), i.ok(v.n()), less_than.requires((&v.cv()[i.index as int], $1)),
    ensures less_than.ensures((&v.cv()[i.index as int], $1), r)
@loopbody 1
    // present when the comparisons are made (the closure only reads)
    proof { assert(vx_arranged(vx_p, vx_v0, v.cv())); assert(vx_arranged(vx_p, vx_u0, u.cv())); }
    let ghost vx_v1 = v.cv(); let ghost vx_u1 = u.cv();
@loopend 1
    proof { let m = i.index as int; assert(vx_v1 =~= vx_rot_up(vx_v1, m, m + 1)); assert(vx_u1 =~= vx_rot_up(vx_u1, m, m + 1)); vx_p = vx_lem_insert2_at(less_than, vx_v0, vx_v1, v.cv(), vx_u0, vx_u1, u.cv(), vx_p, m); }
@@ fn insertion_sort_ranges
@opt fnbound
@spec
    requires vx_all2::<T, F>(less_than, old(v)@), old(v)@.len() <= vx::maxlen(),
    ensures exists|p: Seq<int>| vx_by(p, old(v)@, final(v)@) && #[trigger] vx_ins(less_than, old(v)@, p, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n);
    proof { if vx_n == 0 { assert(vx_ins(less_than, vx_v0, vx_p, vx_n)); assert(vx_by(vx_p, vx_v0, v@)); } }
@loop 1 any
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, vx_all2::<T, F>(less_than, vx_v0), vx_by(vx_p, vx_v0, v.cv()), i.ok(v.n()), i.end == vx_n, i.start < i.end, vx_ins(less_than, vx_v0, vx_p, i.start + 1),
        ensures i.start + 1 == vx_n,
        decreases i.end - i.start,
@closure 1
&T; r: bool
    requires v.wf(), i.ok(v.n()), i.start < i.end, less_than.requires((&v.cv()[i.start as int], $1)),
    ensures less_than.ensures((&v.cv()[i.start as int], $1), r)
@loopbody 1
    // present when the comparisons are made (the closure only reads)
    proof { assert(vx_arranged(vx_p, vx_v0, v.cv())); }
    let ghost vx_v1 = v.cv();
@loopend 1
    proof { let m = i.start as int; assert(vx_v1 =~= vx_rot_up(vx_v1, m, m + 1)); vx_p = vx_lem_insert_at(less_than, vx_v0, vx_v1, v.cv(), vx_p, m); }
@@ fn insertion_sort_pointerindex
@opt fnbound
@spec
    requires vx_all2::<T, F>(less_than, old(v)@), old(v)@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures exists|p: Seq<int>| vx_by(p, old(v)@, final(v)@) && #[trigger] vx_ins(less_than, old(v)@, p, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n);
@loopdesugar 1 it crate::pointer::PRange::into_iter
@loop 1 for
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, vx_all2::<T, F>(less_than, vx_v0), vx_by(vx_p, vx_v0, v.cv()), it.0.ok(v.n()), it.0.e() == vx_n, vx_ins(less_than, vx_v0, vx_p, it.0.s()),
        ensures it.0.s() == vx_n,
        decreases it.0.e() - it.0.s(),
@closure 1
&T; r: bool
    requires v.wf(), i.ok(v.n()), vxp::sz::<T>() > 0, less_than.requires((&v.cv()[i.pos()], $1)),
    ensures less_than.ensures((&v.cv()[i.pos()], $1), r)
@loopbody 1
    // present when the comparisons are made (the closure only reads)
    proof { assert(vx_arranged(vx_p, vx_v0, v.cv())); }
    let ghost vx_v1 = v.cv();
@loopend 1
    proof { let m = i.pos(); assert(vx_v1 =~= vx_rot_up(vx_v1, m, m + 1)); vx_p = vx_lem_insert_at(less_than, vx_v0, vx_v1, v.cv(), vx_p, m); }
@@ fn insertion_sort_prange_lower
@opt fnbound
@spec
    requires vx_all2::<T, F>(less_than, old(v)@), old(v)@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures exists|p: Seq<int>| vx_by(p, old(v)@, final(v)@) && #[trigger] vx_insu(less_than, old(v)@, p, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n);
@loopdesugar 1 it crate::pointer::PRange::into_iter
@loop 1 for
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, vx_all2::<T, F>(less_than, vx_v0), vx_by(vx_p, vx_v0, v.cv()), it.0.ok(v.n()), it.0.e() == vx_n, vx_insu(less_than, vx_v0, vx_p, it.0.s()), vxp::sz::<T>() > 0,
        ensures it.0.s() == vx_n,
        decreases it.0.e() - it.0.s(),
@closure 1
&T; r: bool
    requires v.wf(), i.ok(v.n()), vxp::sz::<T>() > 0, less_than.requires(($1, &v.cv()[i.pos()])),
    ensures less_than.ensures(($1, &v.cv()[i.pos()]), r)
@loopbody 1
    // present when the comparisons are made (the closure only reads)
    proof { assert(vx_arranged(vx_p, vx_v0, v.cv())); }
    let ghost vx_v1 = v.cv();
@loopend 1
    proof { let m = i.pos(); assert(vx_v1 =~= vx_rot_up(vx_v1, m, m + 1)); vx_p = vx_lem_insert_low_at(less_than, vx_v0, vx_v1, v.cv(), vx_p, m); }
@@ fn insertion_sort_rust
@opt rawmem *v
@opt cmpfn less_than
@atcmp
    assert(vx_arranged(vx_p, vx_v0, v@));
@spec
    requires vx_all2::<T, F>(less_than, old(v)@), old(v)@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures exists|p: Seq<int>| vx_by(p, old(v)@, final(v)@) && #[trigger] vx_ins(less_than, old(v)@, p, old(v)@.len() as int),
@body
    let ghost vx_f0 = less_than; let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n);
    proof { assert(vx_ins(less_than, vx_v0, vx_p, vx::min(1, vx_n))); assert(vx_by(vx_p, vx_v0, v@)); }
@forvar 1 it
@loop 1 for
        invariant less_than == vx_f0, len == vx_n, v@.len() == vx_n, vx_n <= vx::maxlen(), vx_v0.len() == vx_n, vx_all2::<T, F>(less_than, vx_v0), vx_by(vx_p, vx_v0, v@), vx_ins(less_than, vx_v0, vx_p, vx::min(it.index@ + 1, vx_n)), vxp::sz::<T>() > 0,
            vxp::at::<T>(buf_v@.addr, 0), vxp::fits::<T>(vx_n), vx_tv::<T>(&*v) == v@, final(v)@ == vx_z,
@loopbody 1
    let ghost vx_v1 = v@;
    proof { assert(vx_all2::<T, F>(less_than, v@)) by { assert forall|i: int, j: int| 0 <= i < vx_n && 0 <= j < vx_n implies #[trigger] less_than.requires((&v@[i], &v@[j])) by { assert(v@[i] == vx_v0[vx_p[i]] && v@[j] == vx_v0[vx_p[j]]); } } }
@loop 2 any
        invariant less_than == vx_f0, v@.len() == vx_n, vx_by(vx_p, vx_v0, v@), vx_isperm(vx_p, vx_n), vx_all2::<T, F>(less_than, v@), vxp::sz::<T>() > 0, 0 <= j <= i < vx_n, vx_n <= vx::maxlen(),
            vxp::at::<T>(buf_v@.addr, 0), vxp::fits::<T>(vx_n), vx_tv::<T>(&*v) == v@, vxp::at::<T>(read_ptr@.addr, i as int), 
            forall|k: int| j <= k < i ==> less_than.ensures((&v@[i as int], &#[trigger] v@[k]), true),
        ensures j > 0 ==> less_than.ensures((&v@[i as int], &v@[j - 1]), false),
        decreases j,
@loopend 1
    proof {
        assert(v@ =~= vx_rot_up(vx_v1, j as int, i + 1));
        let vx_w = vx_rot_up(vx_v1, j as int, i + 1); vx_p = vx_lem_insert(less_than, vx_v0, vx_v1, vx_p, i as int, j as int); }
@@ mod algorithms
use crate::container::vx_rot_up;
pub open spec fn vx_tv<T>(v: &[T]) -> Seq<T> { crate::container_traits::Trustworthy::tview(v) }
