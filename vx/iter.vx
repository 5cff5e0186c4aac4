## Contracts for the iterators of indexing.rs (C07, C08)
@@ root
impl<'id> indexing::RangeIter<'id> {
    pub open spec fn wf(&self) -> bool { self.start <= self.end && self.end <= vx::maxlen() }
}
@@ asinherent IntoIterator for Range<_>
@@ asinherent Iterator for RangeIter
@@ asinherent DoubleEndedIterator for RangeIter
@@ asinherent Iterator for Subdivide
@@ fn IntoIterator for Range<_>::into_iter
@spec
    ensures ret.start == self.start, ret.end == self.end,
@@ fn RangeIter::into_range
@spec
    requires self.wf(),
    ensures ret.is(self.start as int, self.end as int), ret.wf(),
@@ fn Iterator for RangeIter::next
@sigrewrite Self::Item => Index<'id>
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).end == old(self).end,
        old(self).start < old(self).end ==> ret is Some && ret->Some_0.index == old(self).start && final(self).start == old(self).start + 1,
        old(self).start >= old(self).end ==> ret is None && final(self).start == old(self).start,
@@ fn DoubleEndedIterator for RangeIter::next_back
@sigrewrite Self::Item => Index<'id>
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).start == old(self).start,
        old(self).start < old(self).end ==> ret is Some && ret->Some_0.index == old(self).end - 1 && final(self).end == old(self).end - 1,
        old(self).start >= old(self).end ==> ret is None && final(self).end == old(self).end,
## ---------------------------------------------------------------- subdivision
@@ modend indexing
/// the k-th cut of [s, e) in n parts
pub open spec fn vx_cut(s: int, e: int, n: int, k: int) -> int { s + (k * (e - s)) / n }
impl FracStep {
    pub open spec fn n(&self) -> int { self.f.2 as int }
    pub open spec fn done(&self) -> bool { self.f.0 >= self.end }
    /// k parts of [start, end) have been produced; at least one element per part
    pub open spec fn at(&self, k: int) -> bool {
        self.start <= self.end && self.end <= vx::maxlen() && self.decimal_step >= 1 && self.frac_step < self.f.2 && self.f.1 < self.f.2 && 0 <= k <= self.n()
        && self.start <= self.f.0 && self.f.0 <= self.end
        && self.decimal_step * self.f.2 + self.frac_step == self.end - self.start
        && self.f.2 * (self.f.0 - self.start) + self.f.1 == k * (self.end - self.start)
    }
    pub open spec fn wf(&self) -> bool { self.done() || exists|k: int| self.at(k) }
}
impl<'id> Subdivide<'id> {
    pub open spec fn s(&self) -> int { self.fs.start as int }
    pub open spec fn e(&self) -> int { self.fs.end as int }
    pub open spec fn n(&self) -> int { self.fs.n() }
    pub open spec fn at(&self, k: int) -> bool { self.fs.at(k) && self.range.is(self.s(), self.e()) && self.range.wf() }
    pub open spec fn wf(&self) -> bool { self.fs.done() || (self.fs.wf() && self.range.is(self.s(), self.e()) && self.range.wf()) }
}
/// position of the k-th cut from the accumulator invariant
pub proof fn vx_lem_cut(s: int, e: int, n: int, k: int, pos: int, acc: int)
    requires 0 <= acc < n, n * (pos - s) + acc == k * (e - s)
    ensures pos == vx_cut(s, e, n, k)
{
    let d = e - s;
    assert((k * d) / n == pos - s) by (nonlinear_arith) requires 0 <= acc < n, n * (pos - s) + acc == k * d;
}
/// the last cut is the end; earlier cuts are before it
pub proof fn vx_lem_last(s: int, e: int, n: int, k: int, pos: int, acc: int)
    requires 0 <= acc < n, 0 <= k <= n, s < e, n * (pos - s) + acc == k * (e - s)
    ensures k == n ==> pos == e && acc == 0, k < n ==> pos < e
{
    let d = e - s; let q = pos - s;
    if k == n {
        assert(q == d) by (nonlinear_arith) requires 0 <= acc < n, n * q + acc == n * d;
    } else {
        assert(q < d) by (nonlinear_arith) requires 0 <= acc < n, n * q + acc == k * d, k < n, d > 0;
    }
}
/// what the parts are like: adjacent by construction, non-empty, sizes dec or dec + 1
pub proof fn vx_lem_parts(s: int, e: int, n: int, k: int)
    requires 0 <= k < n, n <= e - s
    ensures vx_cut(s, e, n, 0) == s, vx_cut(s, e, n, n) == e,
        (e - s) / n <= vx_cut(s, e, n, k + 1) - vx_cut(s, e, n, k) <= (e - s) / n + 1,
        vx_cut(s, e, n, k) < vx_cut(s, e, n, k + 1), s <= vx_cut(s, e, n, k), vx_cut(s, e, n, k + 1) <= e,
{
    let d = e - s; let q = d / n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k * d, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod((k + 1) * d, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(d, n); vstd::arithmetic::div_mod::lemma_mod_bound(k * d, n); vstd::arithmetic::div_mod::lemma_mod_bound((k + 1) * d, n);
    let a = (k * d) / n; let b = ((k + 1) * d) / n;
    let ra = (k * d) % n; let rb = ((k + 1) * d) % n; let r = d % n;
    assert((k + 1) * d == k * d + d) by (nonlinear_arith);
    assert(n * (b - a - q) == ra + r - rb) by (nonlinear_arith) requires k * d == n * a + ra, (k + 1) * d == n * b + rb, d == n * q + r, (k + 1) * d == k * d + d;
    assert(0 <= b - a - q <= 1) by (nonlinear_arith) requires n * (b - a - q) == ra + r - rb, 0 <= ra < n, 0 <= rb < n, 0 <= r < n;
    assert(q >= 1) by (nonlinear_arith) requires d == n * q + r, 0 <= r < n, n <= d, n > 0;
    assert((n * d) / n == d) by (nonlinear_arith) requires n > 0;
    assert(0 * d == 0) by (nonlinear_arith);
    assert(0int / n == 0) by (nonlinear_arith) requires n > 0;
    assert(a >= 0) by (nonlinear_arith) requires k * d == n * a + ra, 0 <= ra < n, k >= 0, d >= 0, n > 0;
    assert(b <= d) by (nonlinear_arith) requires (k + 1) * d == n * b + rb, 0 <= rb < n, k + 1 <= n, d >= 0, n > 0;
}
@@ fn Frac::next_interval
@spec
    requires old(self).1 + frac <= usize::MAX, old(self).0 + dec < usize::MAX,
    ensures ret.0 == old(self).0, ret.1 == final(self).0, final(self).2 == old(self).2,
        old(self).1 + frac >= old(self).2 ==> final(self).0 == old(self).0 + dec + 1 && final(self).1 == old(self).1 + frac - old(self).2,
        old(self).1 + frac < old(self).2 ==> final(self).0 == old(self).0 + dec && final(self).1 == old(self).1 + frac,
@@ fn FracStep::new
@spec
    requires start <= end, end <= vx::maxlen(), divisor >= 1,
    ensures ret.start == start, ret.n() == divisor,
        divisor <= end - start ==> ret.end == end && ret.at(0),
        divisor > end - start ==> ret.done(),
@body
    proof {
        let d = end - start; let n = divisor as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, n); vstd::arithmetic::div_mod::lemma_mod_bound(d, n);
        assert((d / n) * n == n * (d / n)) by (nonlinear_arith);
        assert(n <= d ==> d / n >= 1) by (nonlinear_arith) requires d == n * (d / n) + d % n, 0 <= d % n < n, n > 0;
        assert(n > d ==> d / n == 0) by (nonlinear_arith) requires d == n * (d / n) + d % n, 0 <= d % n < n, n > 0, d >= 0;
        assert(n * 0 == 0 && 0 * d == 0) by (nonlinear_arith);
    }
@@ fn FracStep::next
@spec
    requires old(self).wf(),
    ensures final(self).start == old(self).start, final(self).end == old(self).end, final(self).n() == old(self).n(), final(self).wf(),
        old(self).done() ==> ret is None && *final(self) == *old(self),
        forall|k: int| #[trigger] old(self).at(k) && k < old(self).n() ==> final(self).at(k + 1) && ret is Some
            && ret->Some_0.0 == vx_cut(old(self).start as int, old(self).end as int, old(self).n(), k)
            && ret->Some_0.1 == vx_cut(old(self).start as int, old(self).end as int, old(self).n(), k + 1),
        forall|k: int| #[trigger] old(self).at(k) && k == old(self).n() ==> ret is None && *final(self) == *old(self),
@body
    proof {
        if !old(self).done() {
            let k = choose|k: int| old(self).at(k);
            vx_lem_step(*old(self), k);
        }
        assert forall|k: int| #[trigger] old(self).at(k) implies (k == old(self).n() <==> old(self).done()) by { vx_lem_step(*old(self), k); }
        assert forall|k: int| #[trigger] old(self).at(k) && k < old(self).n() implies {
            let o = *old(self); let x = FracStep { f: Frac((o.f.0 + o.decimal_step + if o.f.1 + o.frac_step >= o.f.2 { 1int } else { 0 }) as usize, (o.f.1 + o.frac_step - if o.f.1 + o.frac_step >= o.f.2 { o.f.2 as int } else { 0 }) as usize, o.f.2), ..o };
            x.at(k + 1) && x.f.0 == vx_cut(o.start as int, o.end as int, o.n(), k + 1) && o.f.0 == vx_cut(o.start as int, o.end as int, o.n(), k)
        } by { vx_lem_step(*old(self), k); }
    }
@@ modend indexing
/// one step keeps the invariant
pub proof fn vx_lem_step(o: FracStep, k: int)
    requires o.at(k)
    ensures k == o.n() <==> o.done(),
        k < o.n() ==> o.f.1 + o.frac_step <= usize::MAX && o.f.0 + o.decimal_step < usize::MAX,
        k < o.n() ==> {
            let x = FracStep { f: Frac((o.f.0 + o.decimal_step + if o.f.1 + o.frac_step >= o.f.2 { 1int } else { 0 }) as usize, (o.f.1 + o.frac_step - if o.f.1 + o.frac_step >= o.f.2 { o.f.2 as int } else { 0 }) as usize, o.f.2), ..o };
            x.at(k + 1) && x.f.0 == vx_cut(o.start as int, o.end as int, o.n(), k + 1) && o.f.0 == vx_cut(o.start as int, o.end as int, o.n(), k)
        },
{
    let n = o.n(); let s = o.start as int; let e = o.end as int; let d = e - s; let p = o.f.0 as int; let a = o.f.1 as int; let q = o.decimal_step as int; let r = o.frac_step as int;
    assert(n <= d) by (nonlinear_arith) requires q * n + r == d, q >= 1, r >= 0, n >= 0;
    assert(q <= d) by (nonlinear_arith) requires q * n + r == d, q >= 1, r >= 0, n >= 1;
    vx_lem_last(s, e, n, k, p, a);
    vx_lem_cut(s, e, n, k, p, a);
    if k < n {
        let c = if a + r >= n { 1int } else { 0 };
        let p2 = p + q + c; let a2 = a + r - c * n;
        assert(a2 == a + r - if a + r >= n { n } else { 0 });
        assert((k + 1) * d == k * d + d) by (nonlinear_arith);
        assert(n * (p2 - s) + a2 == (k + 1) * d) by (nonlinear_arith) requires n * (p - s) + a == k * d, q * n + r == d, p2 == p + q + c, a2 == a + r - c * n, (k + 1) * d == k * d + d;
        vx_lem_last(s, e, n, k + 1, p2, a2);
        vx_lem_cut(s, e, n, k + 1, p2, a2);
    }
}
@@ fn Range::subdivide
@spec
    requires self.wf(), n >= 1,
    ensures n <= self.end - self.start ==> ret.at(0) && ret.s() == self.start && ret.e() == self.end && ret.n() == n,
        n > self.end - self.start ==> ret.fs.done(),
@@ fn Iterator for Subdivide::next
@opt mapdesugar
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).s() == old(self).s(), final(self).e() == old(self).e(), final(self).n() == old(self).n(),
        old(self).fs.done() ==> ret is None && *final(self) == *old(self),
        forall|k: int| #[trigger] old(self).at(k) && k < old(self).n() ==> final(self).at(k + 1) && ret is Some && ret->Some_0.wf()
            && ret->Some_0.is(vx_cut(old(self).s(), old(self).e(), old(self).n(), k), vx_cut(old(self).s(), old(self).e(), old(self).n(), k + 1)),
        forall|k: int| #[trigger] old(self).at(k) && k == old(self).n() ==> ret is None && *final(self) == *old(self),
@body
    proof {
        assert forall|k: int| #[trigger] old(self).fs.at(k) && k < old(self).n() implies {
            let a = vx_cut(old(self).s(), old(self).e(), old(self).n(), k); let b = vx_cut(old(self).s(), old(self).e(), old(self).n(), k + 1);
            old(self).s() <= a < b <= old(self).e() } by {
            let o = old(self).fs;
            assert(o.n() <= o.end - o.start) by (nonlinear_arith) requires o.decimal_step * o.n() + o.frac_step == o.end - o.start, o.decimal_step >= 1, o.frac_step >= 0, o.n() >= 0;
            vx_lem_parts(old(self).s(), old(self).e(), old(self).n(), k);
        }
        if !old(self).fs.done() { let k = choose|k: int| old(self).fs.at(k); assert(old(self).at(k)); vx_lem_step(old(self).fs, k); }
    }
@@ fn Provable for Index<_>::no_proof
@@ fn Provable for Range<_>::no_proof
## ---------------------------------------------------------------- the whole history, from the contracts of single steps
@@ modend indexing
/// C07: any interleaving of front and back steps (`front` decides), then exhaustion
pub fn vx_client_iterate<'id, P>(r: Range<'id, P>, front: &Vec<bool>) -> (ret: (Ghost<Seq<int>>, Ghost<Seq<int>>))
    requires r.wf(), front@.len() >= r.end - r.start,
    ensures ret.0@.len() + ret.1@.len() == r.end - r.start,
        forall|k: int| 0 <= k < ret.0@.len() ==> ret.0@[k] == r.start + k,
        forall|k: int| 0 <= k < ret.1@.len() ==> ret.1@[k] == r.end - 1 - k,
{
    let mut it = r.into_iter();
    let ghost mut f = Seq::<int>::empty(); let ghost mut b = Seq::<int>::empty();
    let mut n: usize = 0;
    while n < front.len()
        invariant it.wf(), n <= front@.len(), r.wf(),
            it.start == r.start + f.len(), it.end == r.end - b.len(),
            n <= f.len() + b.len() || it.start == it.end,
            forall|k: int| 0 <= k < f.len() ==> f[k] == r.start + k,
            forall|k: int| 0 <= k < b.len() ==> b[k] == r.end - 1 - k,
        decreases front@.len() - n,
    {
        // the remaining range is exactly what has not been yielded
        let rest = it.into_range();
        assert(rest.is(r.start + f.len(), r.end - b.len()));
        if front[n] {
            match it.next() { Some(i) => { proof { f = f.push(i.index as int); } } None => {} }
        } else {
            match it.next_back() { Some(i) => { proof { b = b.push(i.index as int); } } None => {} }
        }
        n += 1;
    }
    let x = it.next(); assert(x is None);
    let x = it.next_back(); assert(x is None);
    (Ghost(f), Ghost(b))
}
/// C08: the whole subdivision
pub fn vx_client_subdivide<'id, P>(r: Range<'id, P>, n: usize) -> (ret: Ghost<Seq<(int, int)>>)
    requires r.wf(), n >= 1,
    ensures n > r.end - r.start ==> ret@.len() == 0,
        n <= r.end - r.start ==> ret@.len() == n && ret@[0].0 == r.start && ret@[n - 1].1 == r.end,
        forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k]).0 < ret@[k].1 && r.start <= ret@[k].0 && ret@[k].1 <= r.end,
        forall|k: int| #![trigger ret@[k]] 0 <= k < ret@.len() - 1 ==> ret@[k].1 == ret@[k + 1].0,
        forall|k: int| 0 <= k < ret@.len() ==> (r.end - r.start) as int / n as int <= (#[trigger] ret@[k]).1 - ret@[k].0 <= (r.end - r.start) as int / n as int + 1,
{
    let mut it = r.subdivide(n);
    let ghost mut o = Seq::<(int, int)>::empty();
    let ghost d = r.end - r.start;
    let mut go = true;
    while go
        invariant it.wf(), r.wf(), n >= 1, d == r.end - r.start, n > d ==> it.fs.done() && o.len() == 0,
            n <= d ==> it.n() == n && it.s() == r.start && it.e() == r.end && it.at(o.len() as int) && o.len() <= n,
            !go && n <= d ==> o.len() == n,
            forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).0 == vx_cut(r.start as int, r.end as int, n as int, k) && o[k].1 == vx_cut(r.start as int, r.end as int, n as int, k + 1),
        decreases (if go { 1int } else { 0 }) + n - o.len(),
    {
        match it.next() { Some(p) => { proof { o = o.push((p.start as int, p.end as int)); } } None => { go = false; } }
    }
    let x = it.next(); assert(x is None);
    proof {
        assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).0 < o[k].1 && r.start <= o[k].0 && o[k].1 <= r.end && d / n as int <= o[k].1 - o[k].0 <= d / n as int + 1 by {
            vx_lem_parts(r.start as int, r.end as int, n as int, k);
        }
        if n <= d { vx_lem_parts(r.start as int, r.end as int, n as int, 0); }
    }
    Ghost(o)
}
