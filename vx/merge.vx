## Contracts for the merges of algorithms.rs (C17, C21)
@@ modend algorithms
/// s with its first x.len() elements replaced by x
pub open spec fn vx_over<T>(s: Seq<T>, x: Seq<T>) -> Seq<T> { Seq::new(s.len(), |k: int| if k < x.len() { x[k] } else { s[k] }) }
@@ fn block_swap2
@opt spinoff_prover
@spec
    ensures final(a)@ == vx_over(old(a)@, old(b)@), final(b)@ == vx_over(old(b)@, old(a)@),
@body
    let ghost vx_a0 = a@; let ghost vx_b0 = b@; let ghost vx_fa = final(a)@; let ghost vx_fb = final(b)@;
@before for i in 0
    let ghost vx_ya = final(a)@; let ghost vx_yb = final(b)@;
@loop 1 for
        invariant count == a@.len(), count == b@.len(), count == vx::min(vx_a0.len() as int, vx_b0.len() as int), final(a)@ == vx_ya, final(b)@ == vx_yb,
            forall|k: int| 0 <= k < count ==> #[trigger] a@[k] == if k < i { vx_b0[k] } else { vx_a0[k] },
            forall|k: int| 0 <= k < count ==> #[trigger] b@[k] == if k < i { vx_a0[k] } else { vx_b0[k] },
@tail
    proof { assert(vx_fa =~= vx_over(vx_a0, vx_b0)); assert(vx_fb =~= vx_over(vx_b0, vx_a0)); }
## the positions of both slices are numbered through: x < n is position x of the data, n + x position x of the (used part of the) buffer
@@ modend algorithms
pub open spec fn vx_src<T>(d0: Seq<T>, b0: Seq<T>, x: int) -> T { if x < d0.len() { d0[x] } else { b0[x - d0.len()] } }
/// pd and pb together list every position of both slices exactly once
pub open spec fn vx_perm2(pd: Seq<int>, pb: Seq<int>, n: int, l: int) -> bool {
    pd.len() == n && pb.len() == l && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] pd[k] < n + l) && (forall|k: int| 0 <= k < l ==> 0 <= #[trigger] pb[k] < n + l)
    && (forall|x: int, y: int| 0 <= x < y < n ==> #[trigger] pd[x] != #[trigger] pd[y]) && (forall|x: int, y: int| 0 <= x < y < l ==> #[trigger] pb[x] != #[trigger] pb[y])
    && (forall|x: int, y: int| 0 <= x < n && 0 <= y < l ==> #[trigger] pd[x] != #[trigger] pb[y])
}
pub open spec fn vx_by2<T>(pd: Seq<int>, pb: Seq<int>, d0: Seq<T>, b0: Seq<T>, d: Seq<T>, b: Seq<T>) -> bool {
    d.len() == d0.len() && b.len() == b0.len()
    && (forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] == vx_src(d0, b0, pd[k])) && (forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == vx_src(d0, b0, pb[k]))
}
/// in the middle of a merge: out elements merged, the buffer holds the left part from i on, the data the right part from j on,
/// and what is in between belongs to the buffer
pub open spec fn vx_mid<T>(pd: Seq<int>, pb: Seq<int>, d0: Seq<T>, b0: Seq<T>, d: Seq<T>, b: Seq<T>, i: int, j: int, out: int) -> bool {
    let n = d0.len() as int; let l = b0.len() as int;
    vx_perm2(pd, pb, n, l) && vx_by2(pd, pb, d0, b0, d, b) && 0 <= i <= l && l <= j <= n && out == i + j - l
    && (forall|k: int| 0 <= k < n ==> (#[trigger] pd[k] >= n <==> out <= k < j)) && (forall|k: int| 0 <= k < l ==> (#[trigger] pb[k] >= n <==> k < i))
}
pub open spec fn vx_run<T: PartialOrd>(s: Seq<T>, a: int, b: int) -> bool { forall|x: int, y: int| a <= x < y < b ==> vx_le(#[trigger] s[x], #[trigger] s[y]) }
pub open spec fn vx_upto<T: PartialOrd>(s: Seq<T>, e: int, t: Seq<T>, b: int) -> bool { forall|x: int, y: int| 0 <= x < e && b <= y < t.len() ==> vx_le(#[trigger] s[x], #[trigger] t[y]) }
pub open spec fn vx_msort<T: PartialOrd>(d: Seq<T>, b: Seq<T>, i: int, j: int, out: int) -> bool {
    vx_run(d, 0, out) && vx_run(d, j, d.len() as int) && vx_run(b, i, b.len() as int) && vx_upto(d, out, b, i) && vx_upto(d, out, d, j)
}
/// both parts of the data in order
pub open spec fn vx_halves<T: PartialOrd>(d: Seq<T>, l: int) -> bool { vx_total::<T>() && vx_run(d, 0, l) && vx_run(d, l, d.len() as int) }
pub open spec fn vx_pd0(n: int, l: int) -> Seq<int> { Seq::new(n as nat, |k: int| if k < l { n + k } else { k }) }
pub open spec fn vx_exch<T>(d: Seq<T>, o: int, x: T) -> Seq<T> { d.update(o, x) }
pub proof fn vx_lem_mid_start<T: PartialOrd>(d0: Seq<T>, b0: Seq<T>)
    requires b0.len() <= d0.len(),
    ensures vx_mid(vx_pd0(d0.len() as int, b0.len() as int), vx_id(b0.len() as int), d0, b0, vx_over(d0, b0), vx_over(b0, d0), 0, b0.len() as int, 0),
        vx_halves(d0, b0.len() as int) ==> vx_msort(vx_over(d0, b0), vx_over(b0, d0), 0, b0.len() as int, 0),
{
    let d = vx_over(d0, b0); let b = vx_over(b0, d0); let l = b0.len() as int;
    if vx_halves(d0, l) {
        assert forall|x: int, y: int| l <= x < y < d.len() implies vx_le(#[trigger] d[x], #[trigger] d[y]) by { assert(d[x] == d0[x] && d[y] == d0[y]); }
        assert forall|x: int, y: int| 0 <= x < y < l implies vx_le(#[trigger] b[x], #[trigger] b[y]) by { assert(b[x] == d0[x] && b[y] == d0[y]); }
    }
}
/// the next element comes from the buffer
pub proof fn vx_lem_mid_buf<T: PartialOrd>(pd: Seq<int>, pb: Seq<int>, d0: Seq<T>, b0: Seq<T>, d: Seq<T>, b: Seq<T>, i: int, j: int, out: int)
    requires vx_mid(pd, pb, d0, b0, d, b, i, j, out), i < b0.len(), j < d0.len(),
    ensures vx_mid(pd.update(out, pb[i]), pb.update(i, pd[out]), d0, b0, d.update(out, b[i]), b.update(i, d[out]), i + 1, j, out + 1),
        vx_total::<T>() && vx_msort(d, b, i, j, out) && vx_le(b[i], d[j]) ==> vx_msort(d.update(out, b[i]), b.update(i, d[out]), i + 1, j, out + 1),
{
    let e = d.update(out, b[i]); let c = b.update(i, d[out]);
    if vx_total::<T>() && vx_msort(d, b, i, j, out) && vx_le(b[i], d[j]) {
        assert forall|x: int, y: int| 0 <= x < out + 1 && j <= y < e.len() implies vx_le(#[trigger] e[x], #[trigger] e[y]) by {
            assert(e[y] == d[y]);
            if x == out { if y > j { assert(vx_le(d[j], d[y])); } } else { assert(e[x] == d[x]); }
        }
        assert forall|x: int, y: int| 0 <= x < out + 1 && i + 1 <= y < c.len() implies vx_le(#[trigger] e[x], #[trigger] c[y]) by {
            assert(c[y] == b[y]);
            if x == out { assert(e[x] == b[i]); } else { assert(e[x] == d[x]); }
        }
        assert forall|x: int, y: int| 0 <= x < y < out + 1 implies vx_le(#[trigger] e[x], #[trigger] e[y]) by {
            assert(e[x] == d[x]); if y == out { assert(e[y] == b[i]); } else { assert(e[y] == d[y]); }
        }
        assert forall|x: int, y: int| j <= x < y < e.len() implies vx_le(#[trigger] e[x], #[trigger] e[y]) by { assert(e[x] == d[x] && e[y] == d[y]); }
        assert forall|x: int, y: int| i + 1 <= x < y < c.len() implies vx_le(#[trigger] c[x], #[trigger] c[y]) by { assert(c[x] == b[x] && c[y] == b[y]); }
    }
}
/// ... from the right part
pub proof fn vx_lem_mid_data<T: PartialOrd>(pd: Seq<int>, pb: Seq<int>, d0: Seq<T>, b0: Seq<T>, d: Seq<T>, b: Seq<T>, i: int, j: int, out: int)
    requires vx_mid(pd, pb, d0, b0, d, b, i, j, out), i < b0.len(), j < d0.len(),
    ensures vx_mid(vx_swapped(pd, j, out), pb, d0, b0, vx_swapped(d, j, out), b, i, j + 1, out + 1),
        vx_total::<T>() && vx_msort(d, b, i, j, out) && vx_le(d[j], b[i]) ==> vx_msort(vx_swapped(d, j, out), b, i, j + 1, out + 1),
{
    let e = vx_swapped(d, j, out);
    if vx_total::<T>() && vx_msort(d, b, i, j, out) && vx_le(d[j], b[i]) {
        assert forall|x: int, y: int| 0 <= x < out + 1 && j + 1 <= y < e.len() implies vx_le(#[trigger] e[x], #[trigger] e[y]) by {
            assert(e[y] == d[y]);
            if x == out { assert(e[x] == d[j]); } else { assert(e[x] == d[x]); }
        }
        assert forall|x: int, y: int| 0 <= x < out + 1 && i <= y < b.len() implies vx_le(#[trigger] e[x], #[trigger] b[y]) by {
            if x == out { assert(e[x] == d[j]); if y > i { assert(vx_le(b[i], b[y])); } } else { assert(e[x] == d[x]); }
        }
        assert forall|x: int, y: int| 0 <= x < y < out + 1 implies vx_le(#[trigger] e[x], #[trigger] e[y]) by {
            assert(e[x] == d[x]); if y == out { assert(e[y] == d[j]); } else { assert(e[y] == d[y]); }
        }
        assert forall|x: int, y: int| j + 1 <= x < y < e.len() implies vx_le(#[trigger] e[x], #[trigger] e[y]) by { assert(e[x] == d[x] && e[y] == d[y]); }
    }
}
/// what is left of the buffer's share after the right part ran out changes places with what is left of its own elements
pub open spec fn vx_swap_tails<T>(s: Seq<T>, a: int, t: Seq<T>, b: int) -> Seq<T> { Seq::new(s.len(), |k: int| if k >= a { t[b + (k - a)] } else { s[k] }) }
pub proof fn vx_lem_mid_rest<T: PartialOrd>(pd: Seq<int>, pb: Seq<int>, d0: Seq<T>, b0: Seq<T>, d: Seq<T>, b: Seq<T>, i: int, out: int)
    requires vx_mid(pd, pb, d0, b0, d, b, i, d0.len() as int, out),
    ensures ({ let n = d0.len() as int; let l = b0.len() as int; let e = vx_swap_tails(d, out, b, i); let c = vx_swap_tails(b, i, d, out);
        vx_mid(vx_swap_tails(pd, out, pb, i), vx_swap_tails(pb, i, pd, out), d0, b0, e, c, l, n, n)
        && (vx_total::<T>() && vx_msort(d, b, i, n, out) ==> vx_msort(e, c, l, n, n)) }),
{
    let n = d0.len() as int; let l = b0.len() as int; let e = vx_swap_tails(d, out, b, i); let c = vx_swap_tails(b, i, d, out);
    let qd = vx_swap_tails(pd, out, pb, i); let qb = vx_swap_tails(pb, i, pd, out);
    assert(n - out == l - i);
    assert forall|x: int, y: int| 0 <= x < y < n implies #[trigger] qd[x] != #[trigger] qd[y] by {
        if x >= out { assert(qd[x] == pb[i + (x - out)] && qd[y] == pb[i + (y - out)]); } else if y >= out { assert(qd[x] == pd[x] && qd[y] == pb[i + (y - out)]); } else { assert(qd[x] == pd[x] && qd[y] == pd[y]); }
    }
    assert forall|x: int, y: int| 0 <= x < y < l implies #[trigger] qb[x] != #[trigger] qb[y] by {
        if x >= i { assert(qb[x] == pd[out + (x - i)] && qb[y] == pd[out + (y - i)]); } else if y >= i { assert(qb[x] == pb[x] && qb[y] == pd[out + (y - i)]); } else { assert(qb[x] == pb[x] && qb[y] == pb[y]); }
    }
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < l implies #[trigger] qd[x] != #[trigger] qb[y] by {
        if x >= out { if y >= i { assert(qd[x] == pb[i + (x - out)] && qb[y] == pd[out + (y - i)]); } else { assert(qd[x] == pb[i + (x - out)] && qb[y] == pb[y]); } }
        else { if y >= i { assert(qd[x] == pd[x] && qb[y] == pd[out + (y - i)]); } else { assert(qd[x] == pd[x] && qb[y] == pb[y]); } }
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] e[k] == vx_src(d0, b0, qd[k]) by { if k >= out { assert(e[k] == b[i + (k - out)]); } else { assert(e[k] == d[k]); } }
    assert forall|k: int| 0 <= k < l implies #[trigger] c[k] == vx_src(d0, b0, qb[k]) by { if k >= i { assert(c[k] == d[out + (k - i)]); } else { assert(c[k] == b[k]); } }
    if vx_total::<T>() && vx_msort(d, b, i, n, out) {
        assert forall|x: int, y: int| 0 <= x < y < n implies vx_le(#[trigger] e[x], #[trigger] e[y]) by {
            if x >= out { assert(e[x] == b[i + (x - out)] && e[y] == b[i + (y - out)]); } else if y >= out { assert(e[x] == d[x] && e[y] == b[i + (y - out)]); } else { assert(e[x] == d[x] && e[y] == d[y]); }
        }
    }
}
/// a merge that is through has put everything in its place
pub proof fn vx_lem_mid_done<T: PartialOrd>(pd: Seq<int>, pb: Seq<int>, d0: Seq<T>, bb: Seq<T>, l: int, d: Seq<T>, b: Seq<T>, j: int)
    requires 0 <= l <= bb.len(), vx_mid(pd, pb, d0, bb.take(l), d, b, l, j, j),
    ensures vx_merged(d0, bb, l, d, vx_over(bb, b)), vx_total::<T>() && vx_msort(d, b, l, j, j) ==> vx_run(d, 0, d.len() as int),
{
    let n = d0.len() as int; let q = Seq::new(bb.len(), |k: int| if k < l { pb[k] - n } else { k }); let c = vx_over(bb, b);
    assert(vx_arranged(pd, d0, d));
    assert forall|x: int, y: int| 0 <= x < y < bb.len() implies #[trigger] q[x] != #[trigger] q[y] by { if y < l { assert(pb[x] != pb[y]); } }
    assert forall|k: int| 0 <= k < bb.len() implies #[trigger] c[k] == bb[q[k]] by { if k < l { assert(c[k] == b[k]); } }
    assert(vx_arranged(q, bb, c)); assert(forall|k: int| l <= k < bb.len() ==> #[trigger] q[k] == k);
    if vx_total::<T>() && vx_msort(d, b, l, j, j) {
        assert forall|x: int, y: int| 0 <= x < y < n implies vx_le(#[trigger] d[x], #[trigger] d[y]) by {}
    }
}
/// the data holds its own elements, and so does the buffer, the latter unchanged from l on
pub open spec fn vx_merged<T: PartialOrd>(d0: Seq<T>, b0: Seq<T>, l: int, d: Seq<T>, b: Seq<T>) -> bool {
    (exists|p: Seq<int>| #[trigger] vx_arranged(p, d0, d)) && (exists|q: Seq<int>| #[trigger] vx_arranged(q, b0, b)) && forall|k: int| l <= k < b0.len() ==> #[trigger] b[k] == b0[k]
}
/// merging nothing
pub proof fn vx_lem_merged_same<T: PartialOrd>(d0: Seq<T>, bb: Seq<T>, l: int)
    requires 0 <= l <= d0.len(),
    ensures vx_merged(d0, bb, l, d0, bb), vx_halves(d0, l) && (l == 0 || l == d0.len()) ==> vx_run(d0, 0, d0.len() as int),
{ assert(vx_arranged(vx_id(d0.len() as int), d0, d0)); assert(vx_arranged(vx_id(bb.len() as int), bb, bb)); }
@@ fn merge_internal_indices
@atcmp
    assert(vx_perm2(vx_pd, vx_pb, vx_n, vx_l) && vx_by2(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv()));
@spec
    requires old(data)@.len() <= vx::maxlen(), old(buffer)@.len() <= vx::maxlen(), old(data)@.len() >= 1,
    ensures ret is Err <==> left_end > old(data)@.len() || left_end > old(buffer)@.len(),
        ret is Err ==> final(data)@ == old(data)@ && final(buffer)@ == old(buffer)@,
        ret is Ok ==> vx_merged(old(data)@, old(buffer)@, left_end as int, final(data)@, final(buffer)@),
        ret is Ok && vx_halves(old(data)@, left_end as int) ==> vx_run(final(data)@, 0, old(data)@.len() as int),
@body
    let ghost vx_d0 = data@; let ghost vx_bb = buffer@; let ghost vx_n = vx_d0.len() as int; let ghost vx_l = left_end as int; let ghost vx_df = final(data)@; let ghost vx_bf = final(buffer)@;
    let ghost mut vx_pd = vx_pd0(vx_n, vx_l); let ghost mut vx_pb = vx_id(vx_l);
@after let rb = buffer . range ( ) ;
    let ghost vx_b0 = buffer.cv(); let ghost vx_fb = buffer.vx_fut();
    proof { assert(vx_b0 =~= vx_bb.take(vx_l)); assert(vx_bf =~= vx_over(vx_bb, vx_fb)); if vx_l == vx_n { vx_lem_merged_same(vx_d0, vx_bb, vx_l); assert(vx_over(vx_bb, vx_b0) =~= vx_bb); } }
@after block_swap2 ( $* ) ; #1
    proof { assert(data.cv() =~= vx_over(vx_d0, vx_b0)); assert(buffer.cv() =~= vx_over(vx_b0, vx_d0)); vx_lem_mid_start(vx_d0, vx_b0);
        if vx_l == 0 { vx_lem_mid_done(vx_pd, vx_pb, vx_d0, vx_bb, vx_l, data.cv(), buffer.cv(), 0); } }
@loop 1 any
        invariant_except_break i.ok(buffer.n()), j.ok(data.n()), out.ok(data.n()), vx_mid(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv(), i.index as int, j.index as int, out.index as int),
            vx_halves(vx_d0, vx_l) ==> vx_msort(data.cv(), buffer.cv(), i.index as int, j.index as int, out.index as int),
        invariant data.wf(), buffer.wf(), buffer.n() == vx_l, data.n() == vx_n, data.vx_fut() == vx_df, buffer.vx_fut() == vx_fb, vx_b0 == vx_bb.take(vx_l), 0 <= vx_l <= vx_bb.len(), vx_d0.len() == vx_n, vx_l < vx_n, vx_b0.len() == vx_l,
        ensures vx_merged(vx_d0, vx_bb, vx_l, data.cv(), vx_over(vx_bb, buffer.cv())), vx_halves(vx_d0, vx_l) ==> vx_run(data.cv(), 0, vx_n),
        decreases data.n() - out.index,
@before swap ( & mut buffer [ $* ] , & mut data [ $* ] ) ;
    proof { vx_lem_mid_buf(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv(), i.index as int, j.index as int, out.index as int);
        let vx_t = vx_pd[out.index as int]; vx_pd = vx_pd.update(out.index as int, vx_pb[i.index as int]); vx_pb = vx_pb.update(i.index as int, vx_t); }
@after swap ( & mut buffer [ $* ] , & mut data [ $* ] ) ;
    proof { if i.index + 1 == vx_l { vx_lem_mid_done(vx_pd, vx_pb, vx_d0, vx_bb, vx_l, data.cv(), buffer.cv(), j.index as int); } }
@before data . swap ( $* ) ;
    proof { vx_lem_mid_data(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv(), i.index as int, j.index as int, out.index as int);
        vx_pd = vx_swapped(vx_pd, j.index as int, out.index as int); }
@before block_swap2 ( $* ) ; #2
    let ghost vx_d1 = data.cv(); let ghost vx_b1 = buffer.cv();
    proof { vx_lem_mid_rest(vx_pd, vx_pb, vx_d0, vx_b0, vx_d1, vx_b1, i.index as int, out.index as int); let vx_q = vx_pd;
        vx_pd = vx_swap_tails(vx_pd, out.index as int, vx_pb, i.index as int); vx_pb = vx_swap_tails(vx_pb, i.index as int, vx_q, out.index as int); }
@after block_swap2 ( $* ) ; #2
    proof { assert(data.cv() =~= vx_swap_tails(vx_d1, out.index as int, vx_b1, i.index as int)); assert(buffer.cv() =~= vx_swap_tails(vx_b1, i.index as int, vx_d1, out.index as int));
        vx_lem_mid_done(vx_pd, vx_pb, vx_d0, vx_bb, vx_l, data.cv(), buffer.cv(), vx_n); }
@@ fn merge_internal_ranges
@atcmp
    assert(vx_perm2(vx_pd, vx_pb, vx_n, vx_l) && vx_by2(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv()));
@sigrewrite ( data : => ( vx_data :
@sigrewrite buffer : => vx_buffer :
@spec
    requires old(vx_data)@.len() <= vx::maxlen(), old(vx_buffer)@.len() <= vx::maxlen(), old(vx_data)@.len() >= 1,
    ensures ret is Err <==> left_end > old(vx_data)@.len() || left_end > old(vx_buffer)@.len(),
        ret is Err ==> final(vx_data)@ == old(vx_data)@ && final(vx_buffer)@ == old(vx_buffer)@,
        ret is Ok ==> vx_merged(old(vx_data)@, old(vx_buffer)@, left_end as int, final(vx_data)@, final(vx_buffer)@),
        ret is Ok && vx_halves(old(vx_data)@, left_end as int) ==> vx_run(final(vx_data)@, 0, old(vx_data)@.len() as int),
@body
    let data = vx_data; let buffer = vx_buffer;
    let ghost vx_d0 = data@; let ghost vx_bb = buffer@; let ghost vx_n = vx_d0.len() as int; let ghost vx_l = left_end as int; let ghost vx_df = final(vx_data)@; let ghost vx_bf = final(vx_buffer)@;
    let ghost mut vx_pd = vx_pd0(vx_n, vx_l); let ghost mut vx_pb = vx_id(vx_l);
@after let rb = buffer . range ( ) ;
    let ghost vx_b0 = buffer.cv(); let ghost vx_fb = buffer.vx_fut();
    proof { assert(vx_b0 =~= vx_bb.take(vx_l)); assert(vx_bf =~= vx_over(vx_bb, vx_fb)); assert(vx_over(vx_bb, vx_b0) =~= vx_bb); if vx_l == vx_n || vx_l == 0 { vx_lem_merged_same(vx_d0, vx_bb, vx_l); } }
@after block_swap2 ( $* ) ; #1
    proof { assert(data.cv() =~= vx_over(vx_d0, vx_b0)); assert(buffer.cv() =~= vx_over(vx_b0, vx_d0)); vx_lem_mid_start(vx_d0, vx_b0); }
@loop 1 any
        invariant_except_break i.ok(buffer.n()), j.ok(data.n()), out.ok(data.n()), i.start < i.end == vx_l, j.start < j.end == vx_n, out.end == vx_n,
            vx_mid(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv(), i.start as int, j.start as int, out.start as int),
            vx_halves(vx_d0, vx_l) ==> vx_msort(data.cv(), buffer.cv(), i.start as int, j.start as int, out.start as int),
        invariant data.wf(), buffer.wf(), buffer.n() == vx_l, data.n() == vx_n, data.vx_fut() == vx_df, buffer.vx_fut() == vx_fb, vx_b0 == vx_bb.take(vx_l), 0 <= vx_l <= vx_bb.len(), vx_d0.len() == vx_n, vx_l < vx_n, vx_b0.len() == vx_l,
            vx_bf == vx_over(vx_bb, vx_fb), vx_df == final(vx_data)@, vx_bf == final(vx_buffer)@, vx_d0 == old(vx_data)@, vx_bb == old(vx_buffer)@, vx_l == left_end,
        ensures vx_merged(vx_d0, vx_bb, vx_l, data.cv(), vx_over(vx_bb, buffer.cv())), vx_halves(vx_d0, vx_l) ==> vx_run(data.cv(), 0, vx_n),
        decreases data.n() - out.start,
@before swap ( & mut buffer [ $* ] , & mut data [ $* ] ) ;
    proof { vx_lem_mid_buf(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv(), i.start as int, j.start as int, out.start as int);
        let vx_t = vx_pd[out.start as int]; vx_pd = vx_pd.update(out.start as int, vx_pb[i.start as int]); vx_pb = vx_pb.update(i.start as int, vx_t); }
@after swap ( & mut buffer [ $* ] , & mut data [ $* ] ) ;
    proof { if i.start + 1 == vx_l { vx_lem_mid_done(vx_pd, vx_pb, vx_d0, vx_bb, vx_l, data.cv(), buffer.cv(), j.start as int); } }
@before data . swap ( $* ) ;
    proof { vx_lem_mid_data(vx_pd, vx_pb, vx_d0, vx_b0, data.cv(), buffer.cv(), i.start as int, j.start as int, out.start as int);
        vx_pd = vx_swapped(vx_pd, j.start as int, out.start as int); }
@before block_swap2 ( $* ) ; #2
    let ghost vx_d1 = data.cv(); let ghost vx_b1 = buffer.cv();
    proof { vx_lem_mid_rest(vx_pd, vx_pb, vx_d0, vx_b0, vx_d1, vx_b1, i.start as int, out.start as int); let vx_q = vx_pd;
        vx_pd = vx_swap_tails(vx_pd, out.start as int, vx_pb, i.start as int); vx_pb = vx_swap_tails(vx_pb, i.start as int, vx_q, out.start as int); }
@after block_swap2 ( $* ) ; #2
    proof { assert(data.cv() =~= vx_swap_tails(vx_d1, out.start as int, vx_b1, i.start as int)); assert(buffer.cv() =~= vx_swap_tails(vx_b1, i.start as int, vx_d1, out.start as int));
        vx_lem_mid_done(vx_pd, vx_pb, vx_d0, vx_bb, vx_l, data.cv(), buffer.cv(), vx_n); }
