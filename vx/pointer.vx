## Contracts for pointer.rs and pointer_ext.rs (C19, pointer parts of C11, C12, C20)
@@ fn ContainerRef for &Container<Array>::dereference
@opt rawdrf 1
@sigrewrite Self::Item => T
@sigrewrite Self::Ref => &'a T
@@ fn ContainerRef for &mutContainer<Array>::dereference
@opt rawdrf 1
@sigrewrite Self::Item => T
@sigrewrite Self::Ref => &'a mut T
@@ root
impl<'id, T, P> pointer::PIndex<'id, T, P> {
    pub open spec fn ne(&self) -> bool { vx::ne::<P>() }
    pub open spec fn pos(&self) -> int { vxp::po::<T>(self.idx@.addr) }
    pub open spec fn wf(&self) -> bool { vxp::good::<T>(self.idx@.addr) && vxp::fits::<T>(self.pos() + (if self.ne() { 1int } else { 0 })) }
    /// valid for a container of length n
    pub open spec fn ok(&self, n: int) -> bool { self.wf() && vxp::fits::<T>(n) && self.pos() <= n && (self.ne() ==> self.pos() < n) }
}
impl<'id, T, P> pointer::PRange<'id, T, P> {
    pub open spec fn ne(&self) -> bool { vx::ne::<P>() }
    pub open spec fn s(&self) -> int { vxp::po::<T>(self.start@.addr) }
    pub open spec fn e(&self) -> int { vxp::po::<T>(self.end@.addr) }
    pub open spec fn wf(&self) -> bool { vxp::good::<T>(self.start@.addr) && vxp::good::<T>(self.end@.addr) && self.s() <= self.e() && self.e() - self.s() <= vx::maxlen() && vxp::fits::<T>(self.e()) && (self.ne() ==> self.s() < self.e()) }
    pub open spec fn is(&self, lo: int, hi: int) -> bool { self.s() == lo && self.e() == hi && self.wf() }
    pub open spec fn ok(&self, n: int) -> bool { self.wf() && vxp::fits::<T>(n) && self.e() <= n }
}
impl<'id, T, P> pointer::PSlice<'id, T, P> {
    pub open spec fn ne(&self) -> bool { vx::ne::<P>() }
    pub open spec fn s(&self) -> int { vxp::po::<T>(self.start@.addr) }
    pub open spec fn e(&self) -> int { vxp::po::<T>(self.start@.addr) + self.len }
    pub open spec fn wf(&self) -> bool { vxp::good::<T>(self.start@.addr) && vxp::fits::<T>(self.e()) && self.len <= vx::maxlen() && (self.ne() ==> self.len > 0) }
    pub open spec fn is(&self, lo: int, hi: int) -> bool { self.s() == lo && self.e() == hi && self.wf() }
    pub open spec fn ok(&self, n: int) -> bool { self.wf() && vxp::fits::<T>(n) && self.e() <= n }
}
@@ in Provable for PIndex<_,_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_same(&self, o: PIndex<'id, T, Unknown>) -> bool { self.idx == o.idx && (self.wf() ==> o.wf()) }
@@ in Provable for PRange<_,_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_same(&self, o: PRange<'id, T, Unknown>) -> bool { self.start == o.start && self.end == o.end && (self.wf() ==> o.wf()) }
@@ in Provable for PSlice<_,_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_same(&self, o: PSlice<'id, T, Unknown>) -> bool { self.start == o.start && self.len == o.len && (self.wf() ==> o.wf()) }
@@ fn Provable for PIndex<_,_>::no_proof
@body
    broadcast use crate::vxp::grpp;
@rewrite mem :: transmute => crate::pointer::vx_transmute_pindex
@@ fn Provable for PRange<_,_>::no_proof
@rewrite mem :: transmute => crate::pointer::vx_transmute_prange
@@ fn Provable for PSlice<_,_>::no_proof
@rewrite mem :: transmute => crate::pointer::vx_transmute_pslice
@@ mod pointer
/// r is a reference obtained for the address a
pub uninterp spec fn vx_got<T>(a: usize, r: &T) -> bool;
pub uninterp spec fn vx_got_mut<T>(a: usize, r: &mut T) -> bool;
#[verifier::external_body]
pub unsafe fn vx_deref<'a, T>(p: *const T) -> (r: &'a T) ensures vx_got::<T>(p@.addr, r) { &*p }
#[verifier::external_body]
pub unsafe fn vx_deref_mut<'a, T>(p: *mut T) -> (r: &'a mut T) ensures vx_got_mut::<T>(p@.addr, r) { &mut *p }
pub unsafe fn vx_transmute_pindex<'id, T, P, Q>(x: PIndex<'id, T, P>) -> (r: PIndex<'id, T, Q>) ensures r.idx == x.idx { PIndex { id: x.id, idx: x.idx, proof: PhantomData } }
pub unsafe fn vx_transmute_prange<'id, T, P, Q>(x: PRange<'id, T, P>) -> (r: PRange<'id, T, Q>) ensures r.start == x.start, r.end == x.end { PRange { id: x.id, start: x.start, end: x.end, proof: PhantomData } }
pub unsafe fn vx_transmute_pslice<'id, T, P, Q>(x: PSlice<'id, T, P>) -> (r: PSlice<'id, T, Q>) ensures r.start == x.start, r.len == x.len { PSlice { id: x.id, start: x.start, len: x.len, proof: PhantomData } }
use crate::vxp;
use crate::container::vx_rot_up;
use crate::container::vx_splice;
## ---------------------------------------------------------------- PIndex
@@ fn PIndex::new
@spec
    ensures ret.idx == p,
@@ fn PIndex::inbounds
@spec
    requires vxp::good::<T>(p@.addr), vxp::fits::<T>(vxp::po::<T>(p@.addr) + 1),
    ensures ret.idx == p, ret.wf(),
@@ fn PIndex::ptr
@spec
    ensures ret == self.idx,
@@ fn PIndex::ptr_mut
@spec
    ensures ret@.addr == self.idx@.addr,
@@ fn PIndex::after
@spec
    requires self.wf(),
    ensures ret.pos() == self.pos() + 1, ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ beforeimpl PartialEq for PIndex<_,_>
impl<'id, T, P> vstd::std_specs::cmp::PartialEqSpecImpl for PIndex<'id, T, P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &PIndex<'id, T, P>) -> bool { self.idx@.addr == rhs.idx@.addr }
}
impl<'id, T, P, Q> vstd::std_specs::cmp::PartialEqSpecImpl<PRange<'id, T, Q>> for PRange<'id, T, P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &PRange<'id, T, Q>) -> bool { self.start@.addr == rhs.start@.addr && self.end@.addr == rhs.end@.addr }
}
impl<'id, T, P, Q> vstd::std_specs::cmp::PartialEqSpecImpl<PSlice<'id, T, Q>> for PSlice<'id, T, P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &PSlice<'id, T, Q>) -> bool { self.start@.addr == rhs.start@.addr && self.len == rhs.len }
}
@@ fn PartialEq for PIndex<_,_>::eq
@spec
    ensures self.wf() && rhs.wf() ==> ret == (self.pos() == rhs.pos()),
## ---------------------------------------------------------------- PRange
@@ fn PartialEq<PRange<_,_>> for PRange<_,_>::eq
@spec
    ensures self.wf() && rhs.wf() ==> ret == (self.s() == rhs.s() && self.e() == rhs.e()),
@@ fn pointer::ptrdistance
@spec
    requires vxp::good::<T>(a@.addr), vxp::good::<T>(b@.addr), b@.addr <= a@.addr,
    ensures ret == vxp::po::<T>(a@.addr) - vxp::po::<T>(b@.addr),
@body
    proof { vxp::lem_dist::<T>(a@.addr, b@.addr); }
@@ fn PRange::new
@spec
    requires vxp::good::<T>(start@.addr), vxp::good::<T>(end@.addr), vxp::po::<T>(start@.addr) <= vxp::po::<T>(end@.addr), vxp::fits::<T>(vxp::po::<T>(end@.addr)),
        vxp::po::<T>(end@.addr) - vxp::po::<T>(start@.addr) <= vx::maxlen(), vx::ne::<P>() ==> vxp::po::<T>(start@.addr) < vxp::po::<T>(end@.addr),
    ensures ret.start == start, ret.end == end, ret.wf(),
@@ fn PRange::len
@spec
    requires self.wf(),
    ensures ret == self.e() - self.s(),
@@ fn PRange::is_empty
@spec
    requires self.wf(),
    ensures ret == (self.s() == self.e()),
@@ fn PRange::nonempty
@spec
    requires self.wf(),
    ensures ret is Ok <==> self.s() < self.e(), ret is Ok ==> ret->Ok_0.is(self.s(), self.e()),
@@ fn PRange::split_in_half
@spec
    requires self.wf(),
    ensures ret.0.is(self.s(), self.s() + (self.e() - self.s()) / 2), ret.1.is(self.s() + (self.e() - self.s()) / 2, self.e()),
@@ fn PRange::first
@spec
    requires self.wf(),
    ensures ret.pos() == self.s(), ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PRange::upper_middle
@spec
    requires self.wf(),
    ensures ret.pos() == self.s() + (self.e() - self.s()) / 2, ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PRange::past_the_end
@spec
    requires self.wf(),
    ensures ret.pos() == self.e(), ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PRange::last
@spec
    requires self.wf(),
    ensures ret.pos() == self.e() - 1, ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PRange::tail
@spec
    requires self.wf(),
    ensures ret.is(self.s() + 1, self.e()),
@@ fn PRange::init
@spec
    requires self.wf(),
    ensures ret.is(self.s(), self.e() - 1),
@@ fn PRange::advance
@spec
    requires old(self).wf(),
    ensures ret == (old(self).s() + 1 < old(self).e()), ret ==> final(self).is(old(self).s() + 1, old(self).e()), !ret ==> *final(self) == *old(self),
@@ fn PRange::advance_back
@spec
    requires old(self).wf(),
    ensures ret == (old(self).s() + 1 < old(self).e()), ret ==> final(self).is(old(self).s(), old(self).e() - 1), !ret ==> *final(self) == *old(self),
## ---------------------------------------------------------------- PSlice
@@ fn PartialEq<PSlice<_,_>> for PSlice<_,_>::eq
@spec
    ensures self.wf() && rhs.wf() ==> ret == (self.s() == rhs.s() && self.e() == rhs.e()),
@@ fn PSlice::new
@spec
    requires vxp::good::<T>(start@.addr), vxp::fits::<T>(vxp::po::<T>(start@.addr) + len), len <= vx::maxlen(), vx::ne::<P>() ==> len > 0,
    ensures ret.start == start, ret.len == len, ret.wf(),
@@ fn PSlice::len
@spec
    ensures ret == self.len,
@@ fn PSlice::is_empty
@spec
    ensures ret == (self.len == 0),
@@ fn PSlice::nonempty
@spec
    requires self.wf(),
    ensures ret is Ok <==> self.s() < self.e(), ret is Ok ==> ret->Ok_0.is(self.s(), self.e()),
@@ fn PSlice::split_in_half
@spec
    requires self.wf(),
    ensures ret.0.is(self.s(), self.s() + (self.e() - self.s()) / 2), ret.1.is(self.s() + (self.e() - self.s()) / 2, self.e()),
@@ fn PSlice::first
@spec
    requires self.wf(),
    ensures ret.pos() == self.s(), ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PSlice::upper_middle
@spec
    requires self.wf(),
    ensures ret.pos() == self.s() + (self.e() - self.s()) / 2, ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PSlice::past_the_end
@spec
    requires self.wf(),
    ensures ret.pos() == self.e(), ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PSlice::last
@spec
    requires self.wf(),
    ensures ret.pos() == self.e() - 1, ret.wf(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
@@ fn PSlice::tail
@spec
    requires self.wf(),
    ensures ret.is(self.s() + 1, self.e()),
@@ fn PSlice::init
@spec
    requires self.wf(),
    ensures ret.is(self.s(), self.e() - 1),
@@ fn PSlice::advance
@spec
    requires old(self).wf(),
    ensures ret == (old(self).s() + 1 < old(self).e()), ret ==> final(self).is(old(self).s() + 1, old(self).e()), !ret ==> *final(self) == *old(self),
@body
    assert(self.start.vx_at(self.s()));
@@ fn PSlice::advance_back
@spec
    requires old(self).wf(),
    ensures ret == (old(self).s() + 1 < old(self).e()), ret ==> final(self).is(old(self).s(), old(self).e() - 1), !ret ==> *final(self) == *old(self),
## ---------------------------------------------------------------- iteration
@@ asinherent IntoIterator for PRange<_,_>
@@ asinherent Iterator for PRangeIter<_>
@@ asinherent DoubleEndedIterator for PRangeIter<_>
@@ asinherent ExactSizeIterator for PRangeIter<_>
@@ fn IntoIterator for PRange<_,_>::into_iter
@sigrewrite Self::IntoIter => PRangeIter<'id, T>
@spec
    requires self.wf(),
    ensures ret.0.is(self.s(), self.e()),
@@ fn PRangeIter::into_range
@spec
    ensures ret == self.0,
@@ fn Iterator for PRangeIter<_>::next
@sigrewrite Self::Item => PIndex<'id, T>
@spec
    requires old(self).0.wf(),
    ensures final(self).0.wf(), final(self).0.e() == old(self).0.e(),
        old(self).0.s() < old(self).0.e() ==> ret is Some && ret->Some_0.pos() == old(self).0.s() && ret->Some_0.wf() && final(self).0.s() == old(self).0.s() + 1,
        old(self).0.s() >= old(self).0.e() ==> ret is None && *final(self) == *old(self),
@body
    assert(self.0.start.vx_at(self.0.s()));
@@ fn Iterator for PRangeIter<_>::size_hint
@spec
    requires self.0.wf(),
    ensures ret.0 == self.0.e() - self.0.s(), ret.1 == Some(ret.0),
@@ fn DoubleEndedIterator for PRangeIter<_>::next_back
@sigrewrite Self::Item => PIndex<'id, T>
@spec
    requires old(self).0.wf(),
    ensures final(self).0.wf(), final(self).0.s() == old(self).0.s(),
        old(self).0.s() < old(self).0.e() ==> ret is Some && ret->Some_0.pos() == old(self).0.e() - 1 && ret->Some_0.wf() && final(self).0.e() == old(self).0.e() - 1,
        old(self).0.s() >= old(self).0.e() ==> ret is None && *final(self) == *old(self),
@body
    assert(self.0.end.vx_at(self.0.e()));
@@ fn ExactSizeIterator for PRangeIter<_>::len
@spec
    requires self.0.wf(),
    ensures ret == self.0.e() - self.0.s(),
## ---------------------------------------------------------------- container
@@ fn Container::pointer_range
@spec
    requires self.wf(), vxp::sz::<T>() > 0,
    ensures ret.is(0, self.n()), ret.ok(self.n()),
@@ fn Container::pointer_slice
@spec
    requires self.wf(), vxp::sz::<T>() > 0,
    ensures ret.is(0, self.n()), ret.ok(self.n()),
@@ fn Container::begin
@spec
    ensures vxp::at::<T>(ret@.addr, 0), vxp::fits::<T>(self.n()),
@@ fn Container::end
@spec
    ensures vxp::at::<T>(ret@.addr, self.n()), vxp::fits::<T>(self.n()),
@@ fn Container::pointer_range_of
@spec
    requires self.wf(), vxp::sz::<T>() > 0, r.vs() is Some ==> r.vs()->Some_0.ok(self.n()), r.ve() is Some ==> r.ve()->Some_0.ok(self.n()),
    ensures ret.is(if r.vs() is Some { r.vs()->Some_0.pos() } else { 0 }, if r.ve() is Some { r.ve()->Some_0.pos() } else { self.n() }), ret.ok(self.n()),
@body
    proof { r.one_point(); }
@@ fn Container::nonempty_range
@spec
    requires self.wf(), a.ok(self.n()), b.ok(self.n()),
    ensures ret is Ok <==> a.pos() < b.pos(), ret is Ok ==> ret->Ok_0.is(a.pos(), b.pos()) && ret->Ok_0.ok(self.n()),
@@ fn Container::distance_to
@spec
    requires self.wf(), ptr.ok(self.n()),
    ensures ret == ptr.pos(),
@@ fn Container::split_at_pointer
@spec
    requires self.wf(), index.ok(self.n()),
    ensures ret.0.is(0, index.pos()), ret.1.is(index.pos(), self.n()), ret.0.ok(self.n()), ret.1.ok(self.n()),
@@ fn Container::scan_tail_
@opt rawmem
@opt trace f
@opt trty &T
@spec
    requires self.wf(), index.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
    ensures ret.ok(self.n()), ret.e() == index.pos() + 1, ret.s() <= index.pos(),
        forall|k: int| #![trigger f.ensures((&self.cv()[k],), true)] #![trigger self.cv()[k]] ret.s() <= k < index.pos() ==> f.ensures((&self.cv()[k],), true),
        ret.s() > 0 ==> f.ensures((&self.cv()[ret.s() - 1],), false),
@body
    let ghost vx_f0 = f;
@loop 1 any
        invariant_except_break vx_tr@.len() == index.pos() - vxp::po::<T>(end@.addr),
        invariant f == vx_f0, self.wf(), index.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
            vxp::good::<T>(end@.addr), end.vx_at(vxp::po::<T>(end@.addr)), vxp::at::<T>(container_start@.addr, 0), 0 <= vxp::po::<T>(end@.addr) <= index.pos(),
            forall|k: int| vxp::po::<T>(end@.addr) <= k < index.pos() ==> #[trigger] f.ensures((&self.cv()[k],), true),
            forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[index.pos() - 1 - k],
        ensures vx_tr@.len() == index.pos() - vxp::po::<T>(end@.addr) + (if vxp::po::<T>(end@.addr) > 0 { 1int } else { 0 }),
            vxp::po::<T>(end@.addr) > 0 ==> f.ensures((&self.cv()[vxp::po::<T>(end@.addr) - 1],), false),
        decreases vxp::po::<T>(end@.addr),
@looptop 1
    proof { if vxp::po::<T>(end@.addr) > 0 { assert(f.requires((&self.cv()[vxp::po::<T>(end@.addr) - 1],))); } }
@exit
    assert(vx_tr@.len() == index.pos() - vx_ret.s() + (if vx_ret.s() > 0 { 1int } else { 0 }));
    assert(forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[index.pos() - 1 - k]);
@@ fn Container::scan_pointer_range
@opt rawmem
@opt trace f
@opt trty &'b T
@spec
    requires self.wf(), range.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
    ensures ret.0.ok(self.n()), ret.1.ok(self.n()), ret.0.s() == range.s(), ret.0.e() == ret.1.s(), ret.1.e() == range.e(),
        forall|k: int| range.s() <= k < ret.0.e() ==> #[trigger] f.ensures((&self.cv()[k],), true),
        ret.0.e() < range.e() ==> f.ensures((&self.cv()[ret.0.e()],), false),
@body
    let ghost vx_f0 = f;
@loop 1 any
        invariant_except_break vx_tr@.len() == vxp::po::<T>(ptr@.addr) - range.s(),
        invariant f == vx_f0, self.wf(), range.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
            vxp::good::<T>(ptr@.addr), ptr.vx_at(vxp::po::<T>(ptr@.addr)), range.s() <= vxp::po::<T>(ptr@.addr) <= range.e(),
            forall|k: int| range.s() <= k < vxp::po::<T>(ptr@.addr) ==> #[trigger] f.ensures((&self.cv()[k],), true),
            forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[range.s() + k],
        ensures vx_tr@.len() == vxp::po::<T>(ptr@.addr) - range.s() + (if vxp::po::<T>(ptr@.addr) < range.e() { 1int } else { 0 }),
            vxp::po::<T>(ptr@.addr) < range.e() ==> f.ensures((&self.cv()[vxp::po::<T>(ptr@.addr)],), false),
        decreases range.e() - vxp::po::<T>(ptr@.addr),
@looptop 1
    proof { if vxp::po::<T>(ptr@.addr) < range.e() { assert(f.requires((&self.cv()[vxp::po::<T>(ptr@.addr)],))); } }
@exit
    assert(vx_tr@.len() == vx_ret.0.e() - range.s() + (if vx_ret.0.e() < range.e() { 1int } else { 0 }));
    assert(forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[range.s() + k]);
@@ fn Container::scan_pointer_range_rev
@opt rawmem
@opt trace f
@opt trty &'b T
@spec
    requires self.wf(), range.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
    ensures ret.0.ok(self.n()), ret.1.ok(self.n()), ret.0.s() == range.s(), ret.0.e() == ret.1.s(), ret.1.e() == range.e(),
        forall|k: int| ret.1.s() <= k < range.e() ==> #[trigger] f.ensures((&self.cv()[k],), true),
        ret.0.e() > range.s() ==> f.ensures((&self.cv()[ret.0.e() - 1],), false),
@body
    let ghost vx_f0 = f;
@loop 1 any
        invariant_except_break vx_tr@.len() == range.e() - vxp::po::<T>(ptr@.addr),
        invariant f == vx_f0, self.wf(), range.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
            vxp::good::<T>(ptr@.addr), ptr.vx_at(vxp::po::<T>(ptr@.addr)), range.s() <= vxp::po::<T>(ptr@.addr) <= range.e(),
            forall|k: int| vxp::po::<T>(ptr@.addr) <= k < range.e() ==> #[trigger] f.ensures((&self.cv()[k],), true),
            forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[range.e() - 1 - k],
        ensures vx_tr@.len() == range.e() - vxp::po::<T>(ptr@.addr) + (if vxp::po::<T>(ptr@.addr) > range.s() { 1int } else { 0 }),
            vxp::po::<T>(ptr@.addr) > range.s() ==> f.ensures((&self.cv()[vxp::po::<T>(ptr@.addr) - 1],), false),
        decreases vxp::po::<T>(ptr@.addr),
@looptop 1
    proof { if range.s() < vxp::po::<T>(ptr@.addr) { assert(f.requires((&self.cv()[vxp::po::<T>(ptr@.addr) - 1],))); } }
@exit
    assert(vx_tr@.len() == range.e() - vx_ret.1.s() + (if vx_ret.1.s() > range.s() { 1int } else { 0 }));
    assert(forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[range.e() - 1 - k]);
@@ fn Container::rotate1_prange
@opt rawmem
@spec
    requires old(self).wf(), r.ok(old(self).n()),
    ensures final(self).vx_fut() == old(self).vx_fut(), final(self).cv() == vx_rot_up(old(self).cv(), r.s(), r.e()),
@@ fn Container::swap_ptr
@opt rawmem
@spec
    requires old(self).wf(), i.ok(old(self).n()), j.ok(old(self).n()),
    ensures final(self).vx_fut() == old(self).vx_fut(), final(self).cv() == old(self).cv().update(i.pos(), old(self).cv()[j.pos()]).update(j.pos(), old(self).cv()[i.pos()]),
@@ fn ptr_iselement
@opt rawmem
@rewrite ptr >= arr . as_ptr ( ) => ptr as usize >= arr.as_ptr() as usize
@rewrite ptr < end => (ptr as usize) < end as usize
@spec
    requires vxp::good::<T>(ptr@.addr), vxp::po::<T>(ptr@.addr) < arr@.len(), arr@.len() <= vx::maxlen(),
@@ beforeimpl Index<PRange<_,_>> for Container<Array>
impl<'id, T, Array, P> vstd::std_specs::core::IndexSpecImpl<PRange<'id, T, P>> for Container<'id, Array> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &PRange<'id, T, P>) -> bool { self.wf() && r.ok(self.n()) }
}
@@ fn Index<PRange<_,_>> for Container<Array>::index
@spec
    ensures ret@ == self.cv().subrange(r.s(), r.e()),
@@ fn IndexMut<PRange<_,_>> for Container<Array>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv().subrange(r.s(), r.e()),
        final(self).cv() == vx_splice(old(self).cv(), r.s(), r.e(), final(ret)@),
@@ beforeimpl Index<PIndex<_>> for Container<Array>
impl<'id, 'a, T, Array> vstd::std_specs::core::IndexSpecImpl<PIndex<'id, T>> for Container<'id, Array> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &PIndex<'id, T>) -> bool { self.wf() && r.ok(self.n()) }
}
@@ fn Index<PIndex<_>> for Container<Array>::index
@opt rawmem
@spec
    ensures *ret == self.cv()[r.pos()],
@@ beforeimpl Index<RangeTo<PIndex<_,_>>> for Container<Array>
impl<'id, T, P, Array> vstd::std_specs::core::IndexSpecImpl<RangeTo<PIndex<'id, T, P>>> for Container<'id, Array> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &RangeTo<PIndex<'id, T, P>>) -> bool { self.wf() && r.end.ok(self.n()) }
}
impl<'id, T, P, Array> vstd::std_specs::core::IndexSpecImpl<RangeFrom<PIndex<'id, T, P>>> for Container<'id, Array> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &RangeFrom<PIndex<'id, T, P>>) -> bool { self.wf() && r.start.ok(self.n()) }
}
@@ fn Index<RangeTo<PIndex<_,_>>> for Container<Array>::index
@spec
    ensures ret@ == self.cv().subrange(0, r.end.pos()),
@@ fn IndexMut<RangeTo<PIndex<_,_>>> for Container<Array>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv().subrange(0, r.end.pos()), final(self).cv() == vx_splice(old(self).cv(), 0, r.end.pos(), final(ret)@),
@@ fn Index<RangeFrom<PIndex<_,_>>> for Container<Array>::index
@spec
    ensures ret@ == self.cv().subrange(r.start.pos(), self.n()),
@@ fn IndexMut<RangeFrom<PIndex<_,_>>> for Container<Array>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv().subrange(r.start.pos(), old(self).n()), final(self).cv() == vx_splice(old(self).cv(), r.start.pos(), old(self).n(), final(ret)@),
@@ fn Container::split_container_at_pointer
@opt noslices
@opt rawpair
@spec
    requires old(self).wf(), index.ok(old(self).n()),
        forall|c1: Container<'id, &mut [T]>, r1: PRange<'id, T>, c2: Container<'id, &mut [T]>, r2: PRange<'id, T, P>|
            c1.cv() == old(self).cv().subrange(0, index.pos()) && c2.cv() == old(self).cv().subrange(index.pos(), old(self).n()) && r1.is(0, index.pos()) && r2.is(index.pos(), old(self).n())
            ==> #[trigger] f.requires((c1, r1, c2, r2)),
## ---------------------------------------------------------------- zip
@@ in trait PointerRange
    spec fn vx_wf(&self) -> bool;
    spec fn vx_s(&self) -> int;
    spec fn vx_e(&self) -> int;
@@ in PointerRange for PRange<_,_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_s(&self) -> int { self.s() }
    open spec fn vx_e(&self) -> int { self.e() }
@@ in PointerRange for PSlice<_,_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_s(&self) -> int { self.s() }
    open spec fn vx_e(&self) -> int { self.e() }
@@ fn trait PointerRange::first
@spec
    requires self.vx_wf(),
    ensures ret.pos() == self.vx_s(), ret.wf(), self.vx_s() <= self.vx_e(), vxp::fits::<Self::Item>(self.vx_e()),
@@ fn trait PointerRange::end
@spec
    requires self.vx_wf(),
    ensures ret.pos() == self.vx_e(), ret.wf(),
@@ fn trait PointerRange::len
@spec
    requires self.vx_wf(),
    ensures ret == self.vx_e() - self.vx_s(), ret <= vx::maxlen(),
@@ fn PointerRange for PRange<_,_>::first
@@ fn PointerRange for PRange<_,_>::end
@@ fn PointerRange for PRange<_,_>::len
@@ fn PointerRange for PSlice<_,_>::first
@@ fn PointerRange for PSlice<_,_>::end
@@ fn PointerRange for PSlice<_,_>::len
@@ in trait ContainerRef
    /// r is a reference obtained for the pointer p
    spec fn vx_refs(p: *const Self::Item, r: Self::Ref) -> bool;
    /// length of the container behind this reference
    spec fn vx_rn(self) -> int;
    /// the elements from position b on were handed out as tr, each once: what they were, and what became of the container
    #[verifier::prophetic] spec fn vx_after(self, b: int, tr: Seq<Self::Ref>) -> bool;
@@ in ContainerRef for &Container<Array>
    open spec fn vx_refs(p: *const T, r: &'a T) -> bool { vx_got::<T>(p@.addr, r) }
    open spec fn vx_rn(self) -> int { (*self).n() }
    #[verifier::prophetic] open spec fn vx_after(self, b: int, tr: Seq<&'a T>) -> bool { forall|k: int| 0 <= k < tr.len() ==> *#[trigger] tr[k] == (*self).cv()[b + k] }
@@ in ContainerRef for &mutContainer<Array>
    open spec fn vx_refs(p: *const T, r: &'a mut T) -> bool { vx_got_mut::<T>(p@.addr, r) }
    open spec fn vx_rn(self) -> int { (*self).n() }
    #[verifier::prophetic] open spec fn vx_after(self, b: int, tr: Seq<&'a mut T>) -> bool {
        (forall|k: int| 0 <= k < tr.len() ==> *(#[trigger] tr[k]) == (*self).cv()[b + k])
        && (*final(self)).wf() && (*final(self)).n() == (*self).n() && (*final(self)).vx_fut() == (*self).vx_fut()
        && (forall|k: int| 0 <= k < (*self).n() ==> #[trigger] (*final(self)).cv()[k] == if b <= k < b + tr.len() { *final(tr[k - b]) } else { (*self).cv()[k] })
    }
@@ fn trait ContainerRef::dereference
@spec
    ensures Self::vx_refs(ptr, ret),
@@ fn zip
@opt trace f
@opt trty (C1::Ref, C2::Ref)
@spec
    requires r1.vx_wf(), r2.vx_wf(), 0 <= r1.vx_s(), r1.vx_e() <= c1.vx_rn(), 0 <= r2.vx_s(), r2.vx_e() <= c2.vx_rn(), vx_zipreq::<C1, C2, F>(f, r1.vx_s(), r2.vx_s(), vx::min(r1.vx_e() - r1.vx_s(), r2.vx_e() - r2.vx_s())),
    ensures exists|tr: Seq<(C1::Ref, C2::Ref)>| #[trigger] vx_called(f, tr) && tr.len() == vx::min(r1.vx_e() - r1.vx_s(), r2.vx_e() - r2.vx_s())
        && c1.vx_after(r1.vx_s(), vx_fst(tr)) && c2.vx_after(r2.vx_s(), vx_snd(tr)) && (forall|k: int| 0 <= k < tr.len() ==> (#[trigger] tr[k]).0 == vx_fst(tr)[k] && tr[k].1 == vx_snd(tr)[k]),
@body
    let ghost vx_f0 = f; let ghost vx_c1 = c1; let ghost vx_c2 = c2; let ghost vx_a = r1.vx_s(); let ghost vx_b = r2.vx_s();
@loop 1 any
        invariant f == vx_f0, len == vx::min(r1.vx_e() - r1.vx_s(), r2.vx_e() - r2.vx_s()), vx_zipreq::<C1, C2, F>(f, r1.vx_s(), r2.vx_s(), len as int),
            vx_tr@.len() <= len, 0 <= r1.vx_s(), 0 <= r2.vx_s(), vxp::sz::<C1::Item>() > 0, vxp::sz::<C2::Item>() > 0, vxp::fits::<C1::Item>(r1.vx_s() + len), vxp::fits::<C2::Item>(r2.vx_s() + len),
            ptr1.vx_at(r1.vx_s() + vx_tr@.len()), ptr2.vx_at(r2.vx_s() + vx_tr@.len()), vxp::at::<C1::Item>(end@.addr, r1.vx_s() + len),
            vx_zipped::<C1, C2>(vx_tr@, r1.vx_s(), r2.vx_s()),
            vx_called(f, vx_tr@),
        ensures vx_tr@.len() == len,
        decreases len - vx_tr@.len(),
@exit
    vx_settle(vx_c1, vx_a, vx_fst(vx_tr@)); vx_settle(vx_c2, vx_b, vx_snd(vx_tr@));
    assert(vx_tr@.len() == vx::min(r1.vx_e() - r1.vx_s(), r2.vx_e() - r2.vx_s()));
    assert(vx_zipped::<C1, C2>(vx_tr@, r1.vx_s(), r2.vx_s()));
@@ modend pointer
/// f may be called on corresponding elements of the first n
pub open spec fn vx_zipreq<'id1, 'id2, C1: ContainerRef<'id1>, C2: ContainerRef<'id2>, F: FnMut(C1::Ref, C2::Ref)>(f: F, a: int, b: int, n: int) -> bool {
    forall|p: *const C1::Item, q: *const C2::Item, x: C1::Ref, y: C2::Ref, k: int| #![trigger C1::vx_refs(p, x), C2::vx_refs(q, y), vxp::at::<C1::Item>(p@.addr, a + k)] 0 <= k < n
        && vxp::at::<C1::Item>(p@.addr, a + k) && vxp::at::<C2::Item>(q@.addr, b + k) && C1::vx_refs(p, x) && C2::vx_refs(q, y) ==> f.requires((x, y))
}
/// the calls were made on corresponding elements, in order
pub open spec fn vx_zipped<'id1, 'id2, C1: ContainerRef<'id1>, C2: ContainerRef<'id2>>(tr: Seq<(C1::Ref, C2::Ref)>, a: int, b: int) -> bool {
    forall|k: int| 0 <= k < tr.len() ==> vx_refs_at::<C1>((#[trigger] tr[k]).0, a + k) && vx_refs_at::<C2>(tr[k].1, b + k)
}
pub open spec fn vx_fst<A, B>(tr: Seq<(A, B)>) -> Seq<A> { Seq::new(tr.len(), |k: int| tr[k].0) }
pub open spec fn vx_snd<A, B>(tr: Seq<(A, B)>) -> Seq<B> { Seq::new(tr.len(), |k: int| tr[k].1) }
/// f has been called with these arguments, in this order
pub open spec fn vx_called<A, B, F: FnMut(A, B)>(f: F, tr: Seq<(A, B)>) -> bool { forall|k: int| 0 <= k < tr.len() ==> f.ensures(#[trigger] tr[k], ()) }
/// the references handed out for the elements from position b on, each once, are the only access to these elements
#[verifier::external_body]
pub proof fn vx_settle<'id, C: ContainerRef<'id>>(c: C, b: int, tr: Seq<C::Ref>)
    requires 0 <= b, b + tr.len() <= c.vx_rn(), forall|k: int| 0 <= k < tr.len() ==> vx_refs_at::<C>(#[trigger] tr[k], b + k),
    ensures c.vx_after(b, tr),
{}
pub open spec fn vx_refs_at<'id, C: ContainerRef<'id>>(x: C::Ref, k: int) -> bool {
    exists|p: *const C::Item| vxp::at::<C::Item>(p@.addr, k) && #[trigger] C::vx_refs(p, x)
}
## ---------------------------------------------------------------- conversions
@@ fn From<PSlice<_,_>> for PRange<_,_>::from
@spec
    requires range.wf(),
    ensures ret.is(range.s(), range.e()),
@@ fn From<PRange<_,_>> for PSlice<_,_>::from
@spec
    requires range.wf(),
    ensures ret.is(range.s(), range.e()),
@@ asinherent From<PSlice<_,_>> for PRange<_,_>
@@ asinherent From<PRange<_,_>> for PSlice<_,_>
@@ modend pointer_ext
/// (lets the contracts below speak about any pointer whose position is known)
pub broadcast proof fn vx_lem_at<T>(p: *const T, k: int)
    requires #[trigger] vxp::at::<T>(p@.addr, k)
    ensures PointerExt::vx_at(&p, k)
{}
@@ mod pointer_ext
use crate::vxp;
@@ in trait PointerExt
    spec fn vx_at(&self, k: int) -> bool;
    spec fn vx_can(&self, i: int) -> bool;
@@ in PointerExt for *const_
    open spec fn vx_at(&self, k: int) -> bool { vxp::at::<T>(self@.addr, k) }
    open spec fn vx_can(&self, i: int) -> bool { vxp::canmove::<T>(self@.addr, i) }
@@ in PointerExt for *mut_
    open spec fn vx_at(&self, k: int) -> bool { vxp::at::<T>(self@.addr, k) }
    open spec fn vx_can(&self, i: int) -> bool { vxp::canmove::<T>(self@.addr, i) }
@@ fn trait PointerExt::offset
@spec
    requires self.vx_can(i as int),
    ensures forall|k: int| #[trigger] self.vx_at(k) ==> ret.vx_at(k + i),
@@ fn trait PointerExt::inc
@spec
    requires (*old(self)).vx_can(1),
    ensures forall|k: int| #[trigger] (*old(self)).vx_at(k) ==> (*final(self)).vx_at(k + 1),
@@ fn trait PointerExt::post_inc
@spec
    requires (*old(self)).vx_can(1),
    ensures ret == *old(self), forall|k: int| #[trigger] (*old(self)).vx_at(k) ==> (*final(self)).vx_at(k + 1),
@@ fn trait PointerExt::dec
@spec
    requires (*old(self)).vx_can(-1),
    ensures forall|k: int| #[trigger] (*old(self)).vx_at(k) ==> (*final(self)).vx_at(k - 1),
@@ fn trait PointerExt::pre_dec
@spec
    requires (*old(self)).vx_can(-1),
    ensures ret == *final(self), forall|k: int| #[trigger] (*old(self)).vx_at(k) ==> ret.vx_at(k - 1),
@@ fn trait PointerExt::stride_offset
@spec
    requires index <= isize::MAX, isize::MIN <= s * index <= isize::MAX, self.vx_can(s * index),
    ensures forall|k: int| #[trigger] self.vx_at(k) ==> ret.vx_at(k + s * index),
@@ fn PointerExt for *const_::offset
@@ fn PointerExt for *mut_::offset
@@ in trait ContainerPrivate
    spec fn vx_arr(&self) -> Self::Array;
@@ in ContainerPrivate for Container<Array,Mode>
    open spec fn vx_arr(&self) -> Array { self.arr }
@@ fn trait ContainerPrivate::array
@spec
    ensures *ret == self.vx_arr(),
@@ fn trait ContainerPrivate::array_mut
@spec
    ensures *ret == old(self).vx_arr(), final(self).vx_arr() == *final(ret),
@@ fn ContainerPrivate for Container<Array,Mode>::array
@@ fn ContainerPrivate for Container<Array,Mode>::array_mut
