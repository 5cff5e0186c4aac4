## Contracts for the quicksorts of algorithms.rs (C13, C21)
@@ modend algorithms
/// what an insertion sort by `<` leaves behind is in order
pub proof fn vx_lem_ins_run<T: PartialOrd, F: FnMut(&T, &T) -> bool>(f: F, a: Seq<T>, p: Seq<int>, w: Seq<T>)
    requires vx_by(p, a, w), vx_ins(f, a, p, a.len() as int),
        vx_total::<T>() ==> forall|x: &T, y: &T, r: bool| #[trigger] f.ensures((x, y), r) ==> r == vx_lt(*x, *y),
    ensures vx_arranged(p, a, w), vx_total::<T>() ==> vx_run(w, 0, a.len() as int),
{
    if vx_total::<T>() {
        let l = |i: int, j: int| vx_lt(a[i], a[j]);
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] l(i, j) implies !l(j, i) by { assert(vx_cmp(a[i], a[j]) == Some(Ordering::Less)); assert(vx_cmp(a[j], a[i]) == Some(Ordering::Greater)); }
        assert forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < a.len() && 0 <= k < a.len() && !#[trigger] l(i, j) && !#[trigger] l(j, k) implies !l(i, k) by { vx_lem_nlt(a[i], a[j]); vx_lem_nlt(a[j], a[k]); vx_lem_nlt(a[i], a[k]); assert(vx_le(a[k], a[j]) && vx_le(a[j], a[i])); }
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] f.ensures((&a[i], &a[j]), true) implies l(i, j) by {}
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] f.ensures((&a[i], &a[j]), false) implies !l(i, j) by {}
        assert(vx_agrees(f, a, l));
        assert forall|x: int, y: int| 0 <= x < y < a.len() implies vx_le(#[trigger] w[x], #[trigger] w[y]) by {
            assert(w[x] == a[p[x]] && w[y] == a[p[y]]); assert(!l(p[y], p[x])); vx_lem_nlt(w[y], w[x]);
        }
    }
}
pub proof fn vx_lem_ins_all<T: PartialOrd, F: FnMut(&T, &T) -> bool>(f: F)
    requires vx_total::<T>() ==> forall|x: &T, y: &T, r: bool| #[trigger] f.ensures((x, y), r) ==> r == vx_lt(*x, *y),
    ensures forall|a: Seq<T>, p: Seq<int>, w: Seq<T>| #[trigger] vx_by(p, a, w) && #[trigger] vx_ins(f, a, p, a.len() as int) ==> vx_arranged(p, a, w) && (vx_total::<T>() ==> vx_run(w, 0, a.len() as int)),
{
    assert forall|a: Seq<T>, p: Seq<int>, w: Seq<T>| #[trigger] vx_by(p, a, w) && #[trigger] vx_ins(f, a, p, a.len() as int) implies vx_arranged(p, a, w) && (vx_total::<T>() ==> vx_run(w, 0, a.len() as int)) by { vx_lem_ins_run(f, a, p, w); }
}
pub proof fn vx_lem_nlt<T: PartialOrd>(x: T, y: T)
    requires vx_total::<T>(),
    ensures !vx_lt(x, y) <==> vx_le(y, x), vx_le(x, x),
{ assert(vx_cmp(x, y) == vx_cmp(x, y)); assert(vx_cmp(y, x) == vx_cmp(y, x)); assert(vx_cmp(x, x) == vx_cmp(x, x)); }
/// rearranging a part of a rearrangement
pub proof fn vx_lem_part<T>(p: Seq<int>, a: Seq<T>, v: Seq<T>, w: Seq<T>, s: int, e: int) -> (r: Seq<int>)
    requires vx_arranged(p, a, v), 0 <= s <= e <= a.len(), w.len() == v.len(), exists|q: Seq<int>| #[trigger] vx_arranged(q, v.subrange(s, e), w.subrange(s, e)),
        forall|k: int| 0 <= k < w.len() && !(s <= k < e) ==> #[trigger] w[k] == v[k],
    ensures vx_arranged(r, a, w), vx_from(w, v, s, e),
{
    let q = choose|q: Seq<int>| #[trigger] vx_arranged(q, v.subrange(s, e), w.subrange(s, e));
    let r = Seq::new(a.len(), |k: int| if s <= k < e { p[s + q[k - s]] } else { p[k] });
    assert forall|k: int| 0 <= k < a.len() implies 0 <= #[trigger] r[k] < a.len() by { if s <= k < e { assert(0 <= q[k - s] < e - s); } }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] r[i] != #[trigger] r[j] by {
        if s <= i < e { assert(0 <= q[i - s] < e - s); }
        if s <= j < e { assert(0 <= q[j - s] < e - s); if s <= i { assert(q[i - s] != q[j - s]); } }
    }
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] w[k] == a[r[k]] by {
        if s <= k < e { assert(w.subrange(s, e)[k - s] == v.subrange(s, e)[q[k - s]]); assert(v[s + q[k - s]] == a[p[s + q[k - s]]]); }
    }
    assert forall|k: int| s <= k < e implies vx_has(v, s, e, #[trigger] w[k]) by {
        let m = s + q[k - s]; assert(0 <= q[k - s] < e - s); assert(w.subrange(s, e)[k - s] == v.subrange(s, e)[q[k - s]]); assert(w[k] == v[m]);
    }
    r
}
/// what a call has made of the part [s, e)
pub proof fn vx_lem_spliced<T>(v: Seq<T>, w: Seq<T>, s: int, e: int)
    requires 0 <= s <= e <= v.len(),
    ensures forall|q: Seq<int>, t: Seq<T>| #[trigger] vx_arranged(q, v.subrange(s, e), t) && w == crate::container::vx_splice(v, s, e, t) ==> t == w.subrange(s, e),
{
    assert forall|q: Seq<int>, t: Seq<T>| #[trigger] vx_arranged(q, v.subrange(s, e), t) && w == crate::container::vx_splice(v, s, e, t) implies t == w.subrange(s, e) by { assert(t =~= w.subrange(s, e)); }
}
/// everything in [s, e) comes from [s, e)
pub open spec fn vx_from<T>(w: Seq<T>, v: Seq<T>, s: int, e: int) -> bool { forall|k: int| s <= k < e ==> vx_has(v, s, e, #[trigger] w[k]) }
pub open spec fn vx_has<T>(v: Seq<T>, s: int, e: int, x: T) -> bool { exists|m: int| s <= m < e && x == #[trigger] v[m] }
/// the scan window is [s, e): before it nothing above the pivot value, after it nothing below it; from the second round on, its last element is not below it either
pub open spec fn vx_part<T: PartialOrd>(v: Seq<T>, s: int, e: int) -> bool { vx_win(v, s, e) && (s >= 1 ==> vx_le(v[0], v[e - 1])) }
pub open spec fn vx_win<T: PartialOrd>(v: Seq<T>, s: int, e: int) -> bool {
    (forall|k: int| 0 <= k < s ==> vx_le(#[trigger] v[k], v[0])) && (forall|k: int| e <= k < v.len() ==> vx_le(v[0], #[trigger] v[k]))
}
/// split at s by x
pub open spec fn vx_parted<T: PartialOrd>(v: Seq<T>, s: int, x: T) -> bool {
    (forall|k: int| 0 <= k < s ==> vx_le(#[trigger] v[k], x)) && (forall|k: int| s <= k < v.len() ==> vx_le(x, #[trigger] v[k]))
}
/// some element other than the first is not above it (so the partition makes progress)
pub open spec fn vx_prog<T: PartialOrd>(v: Seq<T>, g: int) -> bool { 1 <= g < v.len() && vx_le(v[g], v[0]) }
pub open spec fn vx_min0<T: PartialOrd>(v: Seq<T>) -> bool { forall|k: int| 0 <= k < v.len() ==> vx_le(v[0], #[trigger] v[k]) }
/// what gets smaller with every level of recursion
pub open spec fn vx_meas<T: PartialOrd>(v: Seq<T>) -> nat { if vx_min0(v) { 2 * v.len() } else { 2 * v.len() + 1 } }
/// the window's first and last element exchanged, the last not above the pivot
pub proof fn vx_lem_exch<T: PartialOrd>(v: Seq<T>, s: int, e: int, w: Seq<T>)
    requires vx_total::<T>(), vx_win(v, s, e), 0 <= s < e <= v.len(), w == vx_swapped(v, s, e - 1), vx_le(v[e - 1], v[0]), vx_le(v[0], v[s]),
    ensures vx_next(w, s, e),
{
    vx_lem_nlt(w[0], w[0]);
    assert forall|k: int| 0 <= k <= s implies vx_le(#[trigger] w[k], w[0]) by { if k < s { assert(w[k] == v[k]); } }
    assert forall|k: int| e - 1 <= k < w.len() implies vx_le(w[0], #[trigger] w[k]) by { if k >= e { assert(w[k] == v[k]); assert(vx_le(v[0], v[k])); } }
}
/// ... and the first may leave the window
pub open spec fn vx_next<T: PartialOrd>(v: Seq<T>, s: int, e: int) -> bool {
    (forall|k: int| 0 <= k <= s ==> vx_le(#[trigger] v[k], v[0])) && (forall|k: int| e - 1 <= k < v.len() ==> vx_le(v[0], #[trigger] v[k]))
}
pub proof fn vx_lem_keep<T: PartialOrd>(v: Seq<T>, s: int, e: int)
    requires vx_total::<T>(), vx_part(v, s, e), 0 <= s < e <= v.len(), s >= 1, vx_le(v[s], v[0]),
    ensures vx_next(v, s, e),
{ vx_lem_nlt(v[0], v[0]); }
/// one side of a split rearranged by a recursive call (whichever comes first)
pub open spec fn vx_half<T: PartialOrd>(w: Seq<T>, v: Seq<T>, s: int, e: int, k: int, n: int, x: T) -> bool {
    vx_parted(w, k, x) && vx_run(w, s, e) && (s == 0 && vx_run(v, k, n) ==> vx_run(w, k, n)) && (e == n && vx_run(v, 0, k) ==> vx_run(w, 0, k))
}
pub proof fn vx_lem_half<T: PartialOrd>(p: Seq<int>, a: Seq<T>, v: Seq<T>, w: Seq<T>, s: int, e: int, k: int, x: T) -> (r: Seq<int>)
    requires vx_arranged(p, a, v), 0 <= k <= a.len(), (s == 0 && e == k) || (s == k && e == a.len()), w.len() == v.len(), exists|q: Seq<int>| #[trigger] vx_arranged(q, v.subrange(s, e), w.subrange(s, e)),
        forall|i: int| 0 <= i < w.len() && !(s <= i < e) ==> #[trigger] w[i] == v[i],
        vx_total::<T>() ==> vx_parted(v, k, x) && vx_run(w.subrange(s, e), 0, e - s),
    ensures vx_arranged(r, a, w), vx_total::<T>() ==> vx_half(w, v, s, e, k, a.len() as int, x), (s == 0 && e == k ==> w.subrange(k, a.len() as int) == v.subrange(k, a.len() as int)), (s == k && e == a.len() ==> w.subrange(0, k) == v.subrange(0, k)),
{
    let n = a.len() as int;
    let r = vx_lem_part(p, a, v, w, s, e);
    if s == 0 && e == k { assert(w.subrange(k, n) =~= v.subrange(k, n)); }
    if s == k && e == n { assert(w.subrange(0, k) =~= v.subrange(0, k)); }
    if vx_total::<T>() {
        assert forall|i: int, j: int| s <= i < j < e implies vx_le(#[trigger] w[i], #[trigger] w[j]) by { assert(w.subrange(s, e)[i - s] == w[i] && w.subrange(s, e)[j - s] == w[j]); }
        assert forall|i: int| 0 <= i < k implies vx_le(#[trigger] w[i], x) by { if s <= i < e { assert(vx_has(v, s, e, w[i])); let m = choose|m: int| s <= m < e && w[i] == #[trigger] v[m]; assert(vx_le(v[m], x)); } else { assert(w[i] == v[i]); } }
        assert forall|i: int| k <= i < n implies vx_le(x, #[trigger] w[i]) by { if s <= i < e { assert(vx_has(v, s, e, w[i])); let m = choose|m: int| s <= m < e && w[i] == #[trigger] v[m]; assert(vx_le(x, v[m])); } else { assert(w[i] == v[i]); } }
    }
    r
}
/// both halves in order
pub proof fn vx_lem_halves<T: PartialOrd>(v: Seq<T>, k: int, x: T)
    requires vx_total::<T>(), vx_parted(v, k, x), 0 <= k <= v.len(), vx_run(v, 0, k), vx_run(v, k, v.len() as int),
    ensures vx_run(v, 0, v.len() as int),
{
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies vx_le(#[trigger] v[i], #[trigger] v[j]) by { if i < k && j >= k { assert(vx_le(v[i], x) && vx_le(x, v[j])); } }
}
@@ fn quicksort_range
@local scan let mut $1 = range;
@atcmp
    assert(vx_arranged(vx_p, vx_v0, v.cv()));
@opt nodecreases 1
@rewrite x < y => *x < *y
@spec
    requires old(v)@.len() <= vx::maxlen(),
    ensures exists|p: Seq<int>| #[trigger] vx_arranged(p, old(v)@, final(v)@), vx_total::<T>() ==> vx_run(final(v)@, 0, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n); let ghost mut vx_g = 0int;
    proof { assert(vx_arranged(vx_p, vx_v0, vx_v0)); }
@closureproof 1
    proof { vx_lem_ins_all::<T, _>(vx_f); }
@closure 1
&T; &T; r: bool
    ensures vx_total::<T>() ==> r == vx_lt(*$1, *$2)
@after v . swap ( $* ) ; #1
    let ghost vx_c = v.cv(); let ghost vx_x = if vx_c =~= vx_swapped(vx_v0, 0, m.index as int) { m.index as int } else if vx_c =~= vx_swapped(vx_v0, 0, 0) { 0int } else { r.index as int };
    proof { vx_g = if vx_prog(vx_c, m.index as int) { m.index as int } else { r.index as int };
       vx_lem_swap(vx_p, vx_v0, vx_v0, 0, vx_x); vx_p = vx_swapped(vx_p, 0, vx_x); assert(vx_c =~= vx_swapped(vx_v0, 0, vx_x));
       if vx_total::<T>() { vx_lem_nlt(vx_v0[0], vx_v0[0]);
           if !vx_prog(v.cv(), vx_g) { assert(!vx_min0(vx_v0)) by { if vx_min0(vx_v0) { assert(vx_le(vx_v0[0], vx_v0[m.index as int])); assert(vx_le(vx_v0[0], vx_v0[r.index as int])); } } }
           else { } }
    }
    let ghost vx_s = vx_g;
@loop 1 any
        invariant_except_break scan.ok(vx_n), scan.start < scan.end, vx_arranged(vx_p, vx_v0, v.cv()),
            vx_total::<T>() ==> vx_part(v.cv(), scan.start as int, scan.end as int),
            vx_total::<T>() && scan.start == 0 ==> scan.end == vx_n && (vx_prog(v.cv(), vx_s) || !vx_min0(vx_v0)),
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, pivot.index == 0, pivot.ok(vx_n), vx_n >= 3,
        ensures scan.ok(vx_n), scan.start < vx_n, vx_arranged(vx_p, vx_v0, v.cv()), vx_total::<T>() ==> vx_parted(v.cv(), scan.start as int, v.cv()[0]) && (scan.start >= 1 || !vx_min0(vx_v0)),
        decreases scan.end - scan.start,
@loop 2 any
        invariant_except_break scan.start == vx_s0, scan.end <= vx_e0, scan.ok(vx_n), scan.start < scan.end, vx_arranged(vx_p, vx_v0, v.cv()),
            vx_total::<T>() ==> vx_win(v.cv(), scan.start as int, scan.end as int) && vx_le(v.cv()[0], v.cv()[scan.start as int]),
            vx_total::<T>() && scan.start == 0 ==> (vx_prog(v.cv(), vx_s) && scan.end > vx_s) || !vx_min0(vx_v0),
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, pivot.index == 0, pivot.ok(vx_n), vx_n >= 3,
        ensures scan.ok(vx_n), scan.start < scan.end, vx_arranged(vx_p, vx_v0, v.cv()), vx_total::<T>() ==> vx_next(v.cv(), scan.start as int, scan.end as int),
            scan.start == vx_s0, scan.end <= vx_e0,
            vx_total::<T>() && scan.start == 0 ==> scan.end >= 2 || !vx_min0(vx_v0),
        decreases scan.end - scan.start,
@looptop 1
    let ghost vx_s0 = scan.start; let ghost vx_e0 = scan.end; let ghost vx_v1 = v.cv();
    proof { if vx_total::<T>() { vx_lem_nlt(vx_v1[scan.start as int], vx_v1[0]); vx_lem_nlt(vx_v1[0], vx_v1[0]); assert(vx_cmp(vx_v1[0], vx_v1[scan.start as int]) == vx_cmp(vx_v1[0], vx_v1[scan.start as int])); } }
@looptop 2
    let ghost vx_v2 = v.cv(); let ghost vx_e1 = scan.end;
    proof { if vx_total::<T>() { vx_lem_nlt(vx_v2[0], vx_v2[scan.end - 1]); vx_lem_nlt(vx_v2[0], vx_v2[0]); } }
@after v . swap ( $* ) ; #2
    proof { vx_lem_swap(vx_p, vx_v0, vx_v2, scan.start as int, scan.end - 1); vx_p = vx_swapped(vx_p, scan.start as int, scan.end - 1); if vx_total::<T>() { vx_lem_exch(vx_v2, scan.start as int, scan.end as int, v.cv()); } }
@before if ! scan . advance ( )
    proof { if vx_total::<T>() { if !vx_le(vx_v1[0], vx_v1[scan.start as int]) { vx_lem_keep(v.cv(), scan.start as int, scan.end as int); } } }
@after let ( $1 , $2 ) = v . split_at ( scan . first ( ) ) ;
    let ghost vx_v3 = v.cv(); let ghost vx_k = scan.start as int; let ghost vx_x = vx_v3[0]; let ghost mut vx_vc = vx_v3;
    proof { if vx_total::<T>() { assert(vx_meas(vx_v3.subrange(0, vx_k)) < vx_meas(vx_v0)); assert(vx_meas(vx_v3.subrange(vx_k, vx_n)) < vx_meas(vx_v0)); } }
@after quicksort_range ( & mut v [ $1 ] ) ; #*
    proof { vx_lem_spliced(vx_vc, v.cv(), $1.start as int, $1.end as int); vx_p = vx_lem_half(vx_p, vx_v0, vx_vc, v.cv(), $1.start as int, $1.end as int, vx_k, vx_x); vx_vc = v.cv();
        if vx_total::<T>() && vx_run(vx_vc, 0, vx_k) && vx_run(vx_vc, vx_k, vx_n) { vx_lem_halves(vx_vc, vx_k, vx_x); } }
@@ fn quicksort_prange
@local scan let mut $1 = range;
@atcmp
    assert(vx_arranged(vx_p, vx_v0, v.cv()));
@opt nodecreases 1
@rewrite x < y => *x < *y
@spec
    requires old(v)@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures exists|p: Seq<int>| #[trigger] vx_arranged(p, old(v)@, final(v)@), vx_total::<T>() ==> vx_run(final(v)@, 0, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n); let ghost mut vx_g = 0int;
    proof { assert(vx_arranged(vx_p, vx_v0, vx_v0)); }
@closureproof 1
    proof { vx_lem_ins_all::<T, _>(vx_f); }
@closure 1
&T; &T; r: bool
    ensures vx_total::<T>() ==> r == vx_lt(*$1, *$2)
@after v . swap_ptr ( $* ) ; #1
    let ghost vx_c = v.cv(); let ghost vx_x = if vx_c =~= vx_swapped(vx_v0, 0, m.pos()) { m.pos() } else if vx_c =~= vx_swapped(vx_v0, 0, 0) { 0int } else { r.pos() };
    proof { vx_g = if vx_prog(vx_c, m.pos()) { m.pos() } else { r.pos() };
       vx_lem_swap(vx_p, vx_v0, vx_v0, 0, vx_x); vx_p = vx_swapped(vx_p, 0, vx_x); assert(vx_c =~= vx_swapped(vx_v0, 0, vx_x));
       if vx_total::<T>() { vx_lem_nlt(vx_v0[0], vx_v0[0]);
           if !vx_prog(v.cv(), vx_g) { assert(!vx_min0(vx_v0)) by { if vx_min0(vx_v0) { assert(vx_le(vx_v0[0], vx_v0[m.pos()])); assert(vx_le(vx_v0[0], vx_v0[r.pos()])); } } }
           else { } }
    }
    let ghost vx_s = vx_g;
@loop 1 any
        invariant_except_break scan.ok(vx_n), scan.s() < scan.e(), vx_arranged(vx_p, vx_v0, v.cv()),
            vx_total::<T>() ==> vx_part(v.cv(), scan.s(), scan.e()),
            vx_total::<T>() && scan.s() == 0 ==> scan.e() == vx_n && (vx_prog(v.cv(), vx_s) || !vx_min0(vx_v0)),
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, pivot.pos() == 0, pivot.ok(vx_n), vx_n >= 3,
        ensures scan.ok(vx_n), scan.s() < vx_n, vx_arranged(vx_p, vx_v0, v.cv()), vx_total::<T>() ==> vx_parted(v.cv(), scan.s(), v.cv()[0]) && (scan.s() >= 1 || !vx_min0(vx_v0)),
        decreases scan.e() - scan.s(),
@loop 2 any
        invariant_except_break scan.s() == vx_s0, scan.e() <= vx_e0, scan.ok(vx_n), scan.s() < scan.e(), vx_arranged(vx_p, vx_v0, v.cv()),
            vx_total::<T>() ==> vx_win(v.cv(), scan.s(), scan.e()) && vx_le(v.cv()[0], v.cv()[scan.s()]),
            vx_total::<T>() && scan.s() == 0 ==> (vx_prog(v.cv(), vx_s) && scan.e() > vx_s) || !vx_min0(vx_v0),
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, pivot.pos() == 0, pivot.ok(vx_n), vx_n >= 3,
        ensures scan.ok(vx_n), scan.s() < scan.e(), vx_arranged(vx_p, vx_v0, v.cv()), vx_total::<T>() ==> vx_next(v.cv(), scan.s(), scan.e()),
            scan.s() == vx_s0, scan.e() <= vx_e0,
            vx_total::<T>() && scan.s() == 0 ==> scan.e() >= 2 || !vx_min0(vx_v0),
        decreases scan.e() - scan.s(),
@looptop 1
    let ghost vx_s0 = scan.s(); let ghost vx_e0 = scan.e(); let ghost vx_v1 = v.cv();
    proof { if vx_total::<T>() { vx_lem_nlt(vx_v1[scan.s()], vx_v1[0]); vx_lem_nlt(vx_v1[0], vx_v1[0]); assert(vx_cmp(vx_v1[0], vx_v1[scan.s()]) == vx_cmp(vx_v1[0], vx_v1[scan.s()])); } }
@looptop 2
    let ghost vx_v2 = v.cv(); let ghost vx_e1 = scan.e();
    proof { if vx_total::<T>() { vx_lem_nlt(vx_v2[0], vx_v2[scan.e() - 1]); vx_lem_nlt(vx_v2[0], vx_v2[0]); } }
@after v . swap_ptr ( $* ) ; #2
    proof { vx_lem_swap(vx_p, vx_v0, vx_v2, scan.s(), scan.e() - 1); vx_p = vx_swapped(vx_p, scan.s(), scan.e() - 1); if vx_total::<T>() { vx_lem_exch(vx_v2, scan.s(), scan.e(), v.cv()); } }
@before if ! scan . advance ( )
    proof { if vx_total::<T>() { if !vx_le(vx_v1[0], vx_v1[scan.s()]) { vx_lem_keep(v.cv(), scan.s(), scan.e()); } } }
@after let ( $1 , $2 ) = v . split_at_pointer ( scan . first ( ) ) ;
    let ghost vx_v3 = v.cv(); let ghost vx_k = scan.s(); let ghost vx_x = vx_v3[0]; let ghost mut vx_vc = vx_v3;
    proof { if vx_total::<T>() { assert(vx_meas(vx_v3.subrange(0, vx_k)) < vx_meas(vx_v0)); assert(vx_meas(vx_v3.subrange(vx_k, vx_n)) < vx_meas(vx_v0)); } }
@after quicksort_prange ( & mut v [ $1 ] ) ; #*
    proof { vx_lem_spliced(vx_vc, v.cv(), $1.s(), $1.e()); vx_p = vx_lem_half(vx_p, vx_v0, vx_vc, v.cv(), $1.s(), $1.e(), vx_k, vx_x); vx_vc = v.cv();
        if vx_total::<T>() && vx_run(vx_vc, 0, vx_k) && vx_run(vx_vc, vx_k, vx_n) { vx_lem_halves(vx_vc, vx_k, vx_x); } }
@@ modend algorithms
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
@@ fn quicksort_bounds
@atcmp
    assert(vx_arranged(vx_p, vx_v0, v@));
@opt nodecreases 1
@rewrite x < y => *x < *y
@spec
    requires old(v)@.len() <= vx::maxlen(),
    ensures exists|p: Seq<int>| #[trigger] vx_arranged(p, old(v)@, final(v)@), vx_total::<T>() ==> vx_run(final(v)@, 0, old(v)@.len() as int),
@body
    let ghost vx_v0 = v@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n); let ghost mut vx_g = 0int; let ghost vx_z = final(v)@;
    proof { assert(vx_arranged(vx_p, vx_v0, vx_v0)); }
@closureproof 1
    proof { vx_lem_ins_all::<T, _>(vx_f); assert(vx_v0.subrange(0, vx_n) =~= vx_v0); }
@closure 1
&T; &T; r: bool
    ensures vx_total::<T>() ==> r == vx_lt(*$1, *$2)
@after insertion_sort_ranges ( & mut v [ .. ] , | x , y | x < y ) ;
    proof { assert(v@.len() == vx_n); assert(exists|p: Seq<int>| #[trigger] vx_arranged(p, vx_v0, v@)); }
@after v . swap ( $* ) ; #1
    let ghost vx_c = v@; let ghost vx_x = if vx_c =~= vx_swapped(vx_v0, 0, m as int) { m as int } else if vx_c =~= vx_swapped(vx_v0, 0, 0) { 0int } else { r as int };
    proof { vx_g = if vx_prog(vx_c, m as int) { m as int } else { r as int };
       vx_lem_swap(vx_p, vx_v0, vx_v0, 0, vx_x); vx_p = vx_swapped(vx_p, 0, vx_x); assert(vx_c =~= vx_swapped(vx_v0, 0, vx_x));
       if vx_total::<T>() { vx_lem_nlt(vx_v0[0], vx_v0[0]);
           if !vx_prog(v@, vx_g) { assert(!vx_min0(vx_v0)) by { if vx_min0(vx_v0) { assert(vx_le(vx_v0[0], vx_v0[m as int])); assert(vx_le(vx_v0[0], vx_v0[r as int])); } } } }
    }
    let ghost vx_s = vx_g;
@loop 1 any
        invariant_except_break j < vx_n, i <= j, i == 0 ==> j == vx_n - 1, vx_arranged(vx_p, vx_v0, v@),
            vx_total::<T>() ==> vx_part(v@, i as int, j + 1),
            vx_total::<T>() && i == 0 ==> j == vx_n - 1 && (vx_prog(v@, vx_s) || !vx_min0(vx_v0)),
        invariant final(v)@ == vx_z, v@.len() == vx_n, vx_v0.len() == vx_n, pivot == 0, vx_n >= 3,
        ensures i < vx_n, vx_arranged(vx_p, vx_v0, v@), vx_total::<T>() ==> vx_parted(v@, i as int, v@[0]) && (i >= 1 || !vx_min0(vx_v0)),
        decreases j - i,
@loop 2 any
        invariant_except_break i == vx_s0, j <= vx_e0, j < vx_n, i <= j, i == 0 ==> j > 0, vx_arranged(vx_p, vx_v0, v@),
            vx_total::<T>() ==> vx_win(v@, i as int, j + 1) && vx_le(v@[0], v@[i as int]),
            vx_total::<T>() && i == 0 ==> (vx_prog(v@, vx_s) && j >= vx_s) || !vx_min0(vx_v0),
        invariant final(v)@ == vx_z, v@.len() == vx_n, vx_v0.len() == vx_n, pivot == 0, vx_n >= 3,
        ensures j < vx_n, i <= j, vx_arranged(vx_p, vx_v0, v@), vx_total::<T>() ==> vx_next(v@, i as int, j + 1),
            i == vx_s0, j <= vx_e0,
            vx_total::<T>() && i == 0 ==> j >= 1 || !vx_min0(vx_v0),
        decreases j - i,
@looptop 1
    let ghost vx_s0 = i; let ghost vx_e0 = j; let ghost vx_v1 = v@;
    proof { if vx_total::<T>() { vx_lem_nlt(vx_v1[i as int], vx_v1[0]); vx_lem_nlt(vx_v1[0], vx_v1[0]); assert(vx_cmp(vx_v1[0], vx_v1[i as int]) == vx_cmp(vx_v1[0], vx_v1[i as int])); } }
@looptop 2
    let ghost vx_v2 = v@;
    proof { if vx_total::<T>() { vx_lem_nlt(vx_v2[0], vx_v2[j as int]); vx_lem_nlt(vx_v2[0], vx_v2[0]); } }
@after v . swap ( $* ) ; #2
    proof { assert(v@ =~= vx_swapped(vx_v2, i as int, j as int)); vx_lem_swap(vx_p, vx_v0, vx_v2, i as int, j as int); vx_p = vx_swapped(vx_p, i as int, j as int); if vx_total::<T>() { vx_lem_exch(vx_v2, i as int, j + 1, v@); } }
@before if $1 >= $2 { break ; }
    proof { if vx_total::<T>() { if !vx_le(vx_v1[0], vx_v1[i as int]) { vx_lem_keep(v@, i as int, j + 1); } } }
@before let ( a , b ) = v . split_at_mut ( $* ) ;
    let ghost vx_v3 = v@; let ghost vx_k = i as int; let ghost vx_x = vx_v3[0];
    proof { if vx_total::<T>() { assert(vx_meas(vx_v3.subrange(0, vx_k)) < vx_meas(vx_v0)); assert(vx_meas(vx_v3.subrange(vx_k, vx_n)) < vx_meas(vx_v0)); } }
@after let ( a , b ) = v . split_at_mut ( $* ) ;
    let ghost vx_fa = final(a)@; let ghost vx_fb = final(b)@; let ghost vx_v4 = vx_fa + vx_v3.subrange(vx_k, vx_n); let ghost vx_v5 = vx_fa + vx_fb;
@tail
    proof { assert(vx_z == vx_v5); assert(vx_v4.subrange(0, vx_k) =~= vx_fa); assert(vx_v5.subrange(vx_k, vx_n) =~= vx_fb); assert(vx_v4.subrange(vx_k, vx_n) =~= vx_v3.subrange(vx_k, vx_n));
        let vx_p4 = vx_lem_half(vx_p, vx_v0, vx_v3, vx_v4, 0, vx_k, vx_k, vx_x); let vx_p5 = vx_lem_half(vx_p4, vx_v0, vx_v4, vx_v5, vx_k, vx_n, vx_k, vx_x);
        if vx_total::<T>() { vx_lem_halves(vx_v5, vx_k, vx_x); } }
