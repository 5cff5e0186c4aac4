## Contracts for heapify, the quicksorts and the merges of algorithms.rs (C13, C15, C17, C21)
@@ modend algorithms
pub open spec fn vx_cmp<T: PartialOrd>(a: T, b: T) -> Option<Ordering> { vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) }
pub open spec fn vx_le<T: PartialOrd>(a: T, b: T) -> bool { vx_cmp(a, b) == Some(Ordering::Less) || vx_cmp(a, b) == Some(Ordering::Equal) }
/// the element type's comparison operators are those of a total order
pub open spec fn vx_total<T: PartialOrd>() -> bool {
    <T as vstd::std_specs::cmp::PartialOrdSpec<T>>::obeys_partial_cmp_spec()
    && (forall|a: T, b: T| ((#[trigger] vx_cmp(a, b)) == Some(Ordering::Less) || vx_cmp(a, b) == Some(Ordering::Equal) || vx_cmp(a, b) == Some(Ordering::Greater)) && (vx_cmp(a, b) == Some(Ordering::Greater) <==> vx_cmp(b, a) == Some(Ordering::Less)) && (vx_cmp(a, b) == Some(Ordering::Equal) <==> vx_cmp(b, a) == Some(Ordering::Equal)))
    && (forall|a: T, b: T, c: T| #[trigger] vx_le(a, b) && #[trigger] vx_le(b, c) ==> vx_le(a, c))
}
/// there are such types
pub proof fn vx_lem_total_i32() ensures vx_total::<i32>() {}
/// v holds the elements of a, each exactly once
pub open spec fn vx_arranged<T>(p: Seq<int>, a: Seq<T>, v: Seq<T>) -> bool { vx_isperm(p, a.len() as int) && vx_by(p, a, v) }
pub open spec fn vx_swapped<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }
pub proof fn vx_lem_swap<T>(p: Seq<int>, a: Seq<T>, v: Seq<T>, i: int, j: int)
    requires vx_arranged(p, a, v), 0 <= i < a.len(), 0 <= j < a.len(),
    ensures vx_arranged(vx_swapped(p, i, j), a, vx_swapped(v, i, j)),
{}
pub open spec fn vx_child(k: int, c: int) -> bool { c == 2 * k + 1 || c == 2 * k + 2 }
/// every element from lo on is at most each of its children
pub open spec fn vx_heap<T: PartialOrd>(s: Seq<T>, lo: int) -> bool { forall|k: int, c: int| lo <= k && 0 <= k && vx_child(k, c) && c < s.len() ==> vx_le(#[trigger] s[k], #[trigger] s[c]) }
/// ... except possibly the one at pos, whose parent is at most its children
pub open spec fn vx_sift<T: PartialOrd>(s: Seq<T>, lo: int, pos: int) -> bool {
    (forall|k: int, c: int| lo <= k && 0 <= k && k != pos && vx_child(k, c) && c < s.len() ==> vx_le(#[trigger] s[k], #[trigger] s[c]))
    && (forall|k: int, c: int| lo <= k && 0 <= k && vx_child(k, pos) && vx_child(pos, c) && c < s.len() ==> vx_le(#[trigger] s[k], #[trigger] s[c]))
}
pub proof fn vx_lem_sift<T: PartialOrd>(s: Seq<T>, lo: int, pos: int, child: int)
    requires vx_total::<T>(), vx_sift(s, lo, pos), 0 <= lo <= pos, vx_child(pos, child), child < s.len(), vx_le(s[child], s[pos]),
        forall|c: int| vx_child(pos, c) && c < s.len() ==> vx_le(s[child], #[trigger] s[c]),
    ensures vx_sift(vx_swapped(s, pos, child), lo, child),
{
    let w = vx_swapped(s, pos, child);
    assert forall|k: int, c: int| lo <= k && 0 <= k && k != child && vx_child(k, c) && c < w.len() implies vx_le(#[trigger] w[k], #[trigger] w[c]) by {
        assert(s[k] == s[k] && s[c] == s[c]);
        if k == pos { assert(w[k] == s[child]); }
        else if c == pos { assert(w[k] == s[k]); assert(vx_le(s[k], s[child])); }
        else { assert(c != child); assert(w[k] == s[k] && w[c] == s[c]); }
    }
    assert forall|k: int, c: int| lo <= k && 0 <= k && vx_child(k, child) && vx_child(child, c) && c < w.len() implies vx_le(#[trigger] w[k], #[trigger] w[c]) by {
        assert(k == pos); assert(w[k] == s[child] && w[c] == s[c]); assert(vx_le(s[child], s[c]));
    }
}
pub proof fn vx_lem_sifted<T: PartialOrd>(s: Seq<T>, lo: int, pos: int, child: int)
    requires vx_total::<T>(), vx_sift(s, lo, pos), 0 <= lo <= pos, vx_child(pos, child), child < s.len(), vx_le(s[pos], s[child]),
        forall|c: int| vx_child(pos, c) && c < s.len() ==> vx_le(s[child], #[trigger] s[c]),
    ensures vx_heap(s, lo),
{
    assert forall|k: int, c: int| lo <= k && 0 <= k && vx_child(k, c) && c < s.len() implies vx_le(#[trigger] s[k], #[trigger] s[c]) by {
        if k == pos { assert(vx_le(s[child], s[c])); }
    }
}
@@ fn heapify
@local pos let mut $1 = i;
@local child while let Ok(mut $1)
@atcmp
    assert(vx_arranged(vx_p, vx_v0, v.cv()));
@rewrite . rev ( ) =>
@spec
    requires old(v)@.len() <= vx::maxlen(),
    ensures exists|p: Seq<int>| #[trigger] vx_arranged(p, old(v)@, final(v)@), vx_total::<T>() ==> vx_heap(final(v)@, 0),
@body
    let ghost vx_v0 = v@; let ghost vx_z = final(v)@; let ghost vx_n = vx_v0.len() as int; let ghost mut vx_p = vx_id(vx_n);
@loopdesugar 1 it ,next_back
@loop 1 for
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, it.wf(), it.start == 0, it.end <= vx_n / 2, vx_arranged(vx_p, vx_v0, v.cv()),
            vx_total::<T>() ==> vx_heap(v.cv(), it.end as int),
        ensures it.end == 0,
        decreases it.end,
@loop 2 any
        invariant_except_break vx_total::<T>() ==> vx_sift(v.cv(), i.index as int, pos.index as int),
        invariant v.wf(), v.vx_fut() == vx_z, v.n() == vx_n, vx_v0.len() == vx_n, pos.ok(vx_n), i.index <= pos.index, vx_arranged(vx_p, vx_v0, v.cv()),
        ensures vx_total::<T>() ==> vx_heap(v.cv(), i.index as int),
        decreases vx_n - pos.index,
@loopbody 2
    let ghost vx_l = child.index as int;
@before if v [ $* ] <= v [ $* ] {
    let ghost vx_s = v.cv();
    proof { if vx_total::<T>() {
        assert forall|c: int| vx_child(pos.index as int, c) && c < vx_n implies vx_le(vx_s[child.index as int], #[trigger] vx_s[c]) by { assert(c == vx_l || c == vx_l + 1); }
        if vx_le(vx_s[pos.index as int], vx_s[child.index as int]) { vx_lem_sifted(vx_s, i.index as int, pos.index as int, child.index as int); }
    } }
@before v . swap ( $* ) ;
    proof { if vx_total::<T>() { vx_lem_sift(v.cv(), i.index as int, pos.index as int, child.index as int); } vx_lem_swap(vx_p, vx_v0, v.cv(), pos.index as int, child.index as int); vx_p = vx_swapped(vx_p, pos.index as int, child.index as int); }
