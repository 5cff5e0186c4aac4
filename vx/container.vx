## Contracts for container_traits.rs and container.rs
@@ mod container_traits
use crate::vx::*;
@@ root
/// records the argument of a call
pub fn vx_rec<A>(tr: &mut Ghost<Seq<A>>, a: A) -> (r: A)
    ensures r == a, final(tr)@ == old(tr)@.push(a),
{ *tr = Ghost(tr@.push(a)); a }
pub fn vx_rec2<A>(tr: &mut Ghost<Seq<A>>, a: Ghost<A>)
    ensures final(tr)@ == old(tr)@.push(a@),
{ *tr = Ghost(tr@.push(a@)); }
pub assume_specification<T, U, F: FnOnce(T) -> U> [ core::option::Option::<T>::map_or::<U, F> ] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures o is Some ==> f.ensures((o->Some_0,), r), o is None ==> r == d;
/// Pointer model: a valid pointer of the current brand is `pbase + k * size`; k is
/// the element position it denotes.  Which allocation a pointer belongs to is the
/// brand's business (checked by rustc), so one base per element type suffices.
pub mod vxp {
use vstd::prelude::*;
pub uninterp spec fn pbase<T>() -> int;
pub open spec fn sz<T>() -> int { vstd::layout::size_of::<T>() as int }
/// address a denotes element position k
pub open spec fn at<T>(a: usize, k: int) -> bool { a as int == pbase::<T>() + k * sz::<T>() }
/// the position denoted by address a
pub open spec fn po<T>(a: usize) -> int { (a as int - pbase::<T>()) / sz::<T>() }
/// moving a pointer by i elements moves the position it denotes by i (why the second half
/// of the specifications of offset/add below follows from the first)
pub proof fn lem_move<T>(a: usize, r: usize, i: int)
    requires r == a + i * sz::<T>()
    ensures forall|k: int| #[trigger] at::<T>(a, k) ==> at::<T>(r, k + i)
{ assert forall|k: int| #[trigger] at::<T>(a, k) implies at::<T>(r, k + i) by { assert((k + i) * sz::<T>() == k * sz::<T>() + i * sz::<T>()) by (nonlinear_arith); } }
pub proof fn lem_in<T>(k: int, n: int)
    requires fits::<T>(n), 0 <= k <= n
    ensures 0 <= pbase::<T>() + k * sz::<T>() <= usize::MAX, pbase::<T>() + 0 * sz::<T>() == pbase::<T>()
{ assert(0 <= k * sz::<T>() <= n * sz::<T>()) by (nonlinear_arith) requires 0 <= k <= n, sz::<T>() >= 0; assert(0 * sz::<T>() == 0) by (nonlinear_arith); }
pub proof fn lem_in0<T>(k: int, n: int)
    ensures fits::<T>(n) && 0 <= k <= n ==> 0 <= pbase::<T>() + k * sz::<T>() <= usize::MAX && pbase::<T>() + 0 * sz::<T>() == pbase::<T>()
{ if fits::<T>(n) && 0 <= k <= n { lem_in::<T>(k, n); } }
/// the position of an address that denotes position k
pub broadcast proof fn lem_po<T>(a: usize, k: int)
    requires sz::<T>() > 0, #[trigger] at::<T>(a, k)
    ensures po::<T>(a) == k
{ assert((k * sz::<T>()) / sz::<T>() == k) by (nonlinear_arith) requires sz::<T>() > 0; }
/// addresses are ordered as the positions they denote
pub broadcast proof fn lem_ord<T>(a: usize, b: usize)
    requires #[trigger] good::<T>(a), #[trigger] good::<T>(b)
    ensures a <= b <==> po::<T>(a) <= po::<T>(b), a == b <==> po::<T>(a) == po::<T>(b)
{
    let (x, y, z) = (po::<T>(a), po::<T>(b), sz::<T>());
    assert(x <= y ==> x * z <= y * z) by (nonlinear_arith) requires z > 0;
    assert(x < y ==> x * z < y * z) by (nonlinear_arith) requires z > 0;
    assert(y < x ==> y * z < x * z) by (nonlinear_arith) requires z > 0;
}
pub proof fn lem_dist<T>(a: usize, b: usize)
    requires good::<T>(a), good::<T>(b), b <= a
    ensures (a - b) as int / sz::<T>() == po::<T>(a) - po::<T>(b)
{
    let (x, y, z) = (po::<T>(a), po::<T>(b), sz::<T>());
    assert(a - b == (x - y) * z) by (nonlinear_arith) requires a == pbase::<T>() + x * z, b == pbase::<T>() + y * z;
    assert(((x - y) * z) / z == x - y) by (nonlinear_arith) requires z > 0;
}
pub broadcast proof fn lem_fits<T>(n: int, k: int)
    requires #[trigger] fits::<T>(n), 0 <= k <= n
    ensures #[trigger] fits::<T>(k)
{ assert(k * sz::<T>() <= n * sz::<T>()) by (nonlinear_arith) requires 0 <= k <= n, sz::<T>() >= 0; }
/// a pointer to position k of a container that is long enough
pub broadcast proof fn lem_good<T>(a: usize, k: int)
    requires sz::<T>() > 0, #[trigger] at::<T>(a, k), k >= 0
    ensures good::<T>(a), po::<T>(a) == k
{ lem_po::<T>(a, k); }
/// a length is also a valid pointer offset, and every position of a zero-sized type is the same address
pub broadcast proof fn lem_small<T>(n: int)
    requires #[trigger] fits::<T>(n), sz::<T>() > 0
    ensures n <= isize::MAX
{ assert(n <= n * sz::<T>()) by (nonlinear_arith) requires n >= 0, sz::<T>() >= 1; }
pub broadcast proof fn lem_zst<T>(a: usize, k: int)
    requires sz::<T>() == 0
    ensures #[trigger] at::<T>(a, k) == (a == pbase::<T>())
{ assert(k * sz::<T>() == 0) by (nonlinear_arith) requires sz::<T>() == 0; }
pub broadcast proof fn lem_zmove<T>(a: usize, i: int)
    requires sz::<T>() == 0
    ensures #[trigger] canmove::<T>(a, i)
{ assert(i * sz::<T>() == 0) by (nonlinear_arith) requires sz::<T>() == 0; }
/// raw pointers (to sized types) compare as their addresses do (std)
pub broadcast axiom fn ax_ptr_obeys<T>() ensures #[trigger] <*const T as vstd::std_specs::cmp::PartialOrdSpec<*const T>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_ptr_partial_cmp<T>(a: *const T, b: *const T)
    ensures #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(if a@.addr < b@.addr { core::cmp::Ordering::Less } else if a@.addr == b@.addr { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater });
pub broadcast group grpp { lem_po, lem_ord, lem_fits, lem_good, ax_ptr_obeys, ax_ptr_partial_cmp }
pub broadcast group grpl { lem_small, lem_zst, lem_zmove }
/// a pointer that denotes a position (of an element type that is not zero-sized)
pub open spec fn good<T>(a: usize) -> bool { sz::<T>() > 0 && po::<T>(a) >= 0 && at::<T>(a, po::<T>(a)) }
/// the container [0, n) of Ts lies inside the address space and is no larger than any object may be
pub open spec fn fits<T>(n: int) -> bool { pbase::<T>() >= 0 && 0 <= n && n * sz::<T>() <= isize::MAX && pbase::<T>() + n * sz::<T>() <= usize::MAX }
/// moving by i elements stays inside the address space; the second alternative implies the first (lem_can)
pub open spec fn canmove<T>(a: usize, i: int) -> bool {
    0 <= a + i * sz::<T>() <= usize::MAX || exists|k: int, n: int| #[trigger] at::<T>(a, k) && #[trigger] fits::<T>(n) && 0 <= k <= n && 0 <= k + i <= n
}
pub proof fn lem_can<T>(a: usize, i: int)
    requires canmove::<T>(a, i) ensures 0 <= a + i * sz::<T>() <= usize::MAX
{
    if !(0 <= a + i * sz::<T>() <= usize::MAX) {
        let (k, n) = choose|k: int, n: int| #[trigger] at::<T>(a, k) && #[trigger] fits::<T>(n) && 0 <= k <= n && 0 <= k + i <= n;
        lem_in::<T>(k + i, n);
        assert((k + i) * sz::<T>() == k * sz::<T>() + i * sz::<T>()) by (nonlinear_arith);
    }
}
pub assume_specification<T> [ <[T]>::as_ptr ] (s: &[T]) -> (r: *const T)
    ensures at::<T>(r@.addr, 0), fits::<T>(s@.len() as int);
pub assume_specification<T> [ <[T]>::as_mut_ptr ] (s: &mut [T]) -> (r: *mut T)
    ensures at::<T>(r@.addr, 0), fits::<T>(old(s)@.len() as int), final(s)@ == old(s)@;
pub assume_specification<T> [ <*const T>::offset ] (p: *const T, i: isize) -> (r: *const T)
    requires canmove::<T>(p@.addr, i as int),
    ensures r@.addr == p@.addr + i * sz::<T>(), forall|k: int| #[trigger] at::<T>(p@.addr, k) ==> at::<T>(r@.addr, k + i);
pub assume_specification<T> [ <*mut T>::offset ] (p: *mut T, i: isize) -> (r: *mut T)
    requires canmove::<T>(p@.addr, i as int),
    ensures r@.addr == p@.addr + i * sz::<T>(), forall|k: int| #[trigger] at::<T>(p@.addr, k) ==> at::<T>(r@.addr, k + i);
pub assume_specification<T> [ <*const T>::add ] (p: *const T, i: usize) -> (r: *const T)
    requires canmove::<T>(p@.addr, i as int),
    ensures r@.addr == p@.addr + i * sz::<T>(), forall|k: int| #[trigger] at::<T>(p@.addr, k) ==> at::<T>(r@.addr, k + i);
pub assume_specification<T> [ <*mut T>::add ] (p: *mut T, i: usize) -> (r: *mut T)
    requires canmove::<T>(p@.addr, i as int),
    ensures r@.addr == p@.addr + i * sz::<T>(), forall|k: int| #[trigger] at::<T>(p@.addr, k) ==> at::<T>(r@.addr, k + i);
}
@@ in trait Trustworthy
    spec fn tview(&self) -> Seq<Self::Item>;
    /// what the storage will hold when the handle to it ends (nothing for storage that is owned)
    #[verifier::prophetic] spec fn vx_fut(&self) -> Seq<Self::Item>;
@@ fn trait Trustworthy::base_len
@spec
    ensures ret == self.tview().len(),
@@ fn trait Contiguous::begin
@spec
    ensures crate::vxp::at::<Self::Item>(ret@.addr, 0), crate::vxp::fits::<Self::Item>(self.tview().len() as int),
@@ fn trait Contiguous::end
@spec
    ensures crate::vxp::at::<Self::Item>(ret@.addr, self.tview().len() as int), crate::vxp::fits::<Self::Item>(self.tview().len() as int),
@@ fn trait Contiguous::as_slice
@spec
    ensures ret@ == self.tview(),
@@ fn trait GetUnchecked::xget_unchecked
@spec
    requires i < self.tview().len(),
    ensures *ret == self.tview()[i as int],
@@ fn trait GetUncheckedMut::xget_unchecked_mut
@spec
    requires i < (*old(self)).tview().len(),
    ensures (*final(self)).vx_fut() == (*old(self)).vx_fut(), *ret == (*old(self)).tview()[i as int], (*final(self)).tview() == (*old(self)).tview().update(i as int, *final(ret)),
@@ fn trait ContiguousMut::begin_mut
@spec
    ensures (*final(self)).vx_fut() == (*old(self)).vx_fut(), crate::vxp::at::<Self::Item>(ret@.addr, 0), crate::vxp::fits::<Self::Item>((*old(self)).tview().len() as int), (*final(self)).tview() == (*old(self)).tview(),
@@ fn trait ContiguousMut::end_mut
@spec
    ensures (*final(self)).vx_fut() == (*old(self)).vx_fut(), crate::vxp::at::<Self::Item>(ret@.addr, (*old(self)).tview().len() as int), crate::vxp::fits::<Self::Item>((*old(self)).tview().len() as int), (*final(self)).tview() == (*old(self)).tview(),
@@ fn trait ContiguousMut::as_mut_slice
@spec
    ensures (*final(self)).vx_fut() == (*old(self)).vx_fut(), ret@ == (*old(self)).tview(), (*final(self)).tview() == final(ret)@,
@@ fn trait Pushable::push
@spec
    ensures (*final(self)).vx_fut() == (*old(self)).vx_fut(), ret == (*old(self)).tview().len(), (*final(self)).tview() == (*old(self)).tview().push(item),
@@ fn trait Pushable::insert_unchecked
@spec
    requires index <= (*old(self)).tview().len(),
    ensures (*final(self)).vx_fut() == (*old(self)).vx_fut(), (*final(self)).tview() == (*old(self)).tview().insert(index as int, item),
@@ in Trustworthy for &C
    #[verifier::prophetic] open spec fn vx_fut(&self) -> Seq<C::Item> { Seq::empty() }
    open spec fn tview(&self) -> Seq<C::Item> { (**self).tview() }
@@ in Trustworthy for &mutC
    #[verifier::prophetic] open spec fn vx_fut(&self) -> Seq<C::Item> { (*final(*self)).tview() }
    open spec fn tview(&self) -> Seq<C::Item> { (**self).tview() }
@@ in Trustworthy for [_]
    #[verifier::prophetic] open spec fn vx_fut(&self) -> Seq<T> { Seq::empty() }
    open spec fn tview(&self) -> Seq<T> { self@ }
@@ in Trustworthy for Vec<_>
    #[verifier::prophetic] open spec fn vx_fut(&self) -> Seq<T> { Seq::empty() }
    open spec fn tview(&self) -> Seq<T> { self@ }
@@ in trait IndexRange
    spec fn vs(&self) -> Option<I>;
    spec fn ve(&self) -> Option<I>;
@@ fn trait IndexRange::start
@spec
    ensures ret == self.vs(),
@@ fn trait IndexRange::end
@spec
    ensures ret == self.ve(),
@@ in trait OnePointRange
    proof fn one_point(&self) ensures !(self.vs() is Some && self.ve() is Some);

@@ modend container
/// what `scope` hands to its closure
pub fn vx_scope<'id, Array: Trustworthy>(arr: Array) -> (ret: Container<'id, Array>)
    ensures ret.arr == arr,
{ Container { id: Id::default(), arr: arr, mode: PhantomData } }
impl<'id, Array: Trustworthy, Mode> Container<'id, Array, Mode> {
    /// the contents
    pub open spec fn cv(&self) -> Seq<Array::Item> { self.arr.tview() }
    pub open spec fn n(&self) -> int { self.arr.tview().len() as int }
    #[verifier::prophetic] pub open spec fn vx_fut(&self) -> Seq<Array::Item> { self.arr.vx_fut() }
    pub open spec fn wf(&self) -> bool { self.arr.tview().len() <= vx::maxlen() }
}
@@ fn Container::len
@spec
    requires self.wf(),
    ensures ret == self.n(),
@@ fn Container::only_index
@spec
    ensures ret.arr == self.arr,
@@ fn Container::empty_range
@spec
    ensures ret.is(0, 0),
@@ fn Container::range
@spec
    requires self.wf(),
    ensures ret.ok(self.n()), ret.is(0, self.n()),
@@ fn Container::vet
@spec
    requires self.wf(),
    ensures ret is Ok <==> index < self.n(),
        ret is Ok ==> ret->Ok_0.index == index && ret->Ok_0.ok(self.n()),
@@ fn Container::vet_range
@spec
    requires self.wf(),
    ensures ret is Ok <==> r.start <= r.end <= self.n(),
        ret is Ok ==> ret->Ok_0.is(r.start as int, r.end as int) && ret->Ok_0.ok(self.n()),
@@ fn Container::split_at
@spec
    requires self.wf(), index.ok(self.n()),
    ensures ret.0.is(0, index.index as int), ret.1.is(index.index as int, self.n()), ret.0.ok(self.n()), ret.1.ok(self.n()),
@@ fn Container::split_after
@spec
    requires self.wf(), index.ok(self.n()),
    ensures ret.0.is(0, index.index + 1), ret.1.is(index.index + 1, self.n()), ret.0.ok(self.n()), ret.1.ok(self.n()),
@@ fn Container::split_around
@spec
    requires self.wf(), r.ok(self.n()),
    ensures ret.0.is(0, r.start as int), ret.1.is(r.end as int, self.n()), ret.0.ok(self.n()), ret.1.ok(self.n()),
@@ fn Container::before
@spec
    requires self.wf(), index.ok(self.n()),
    ensures ret.is(0, index.index as int), ret.ok(self.n()),
@@ fn Container::after
@spec
    requires self.wf(), index.ok(self.n()),
    ensures ret.is(index.index + 1, self.n()), ret.ok(self.n()),
@@ fn Container::range_of
@spec
    requires self.wf(), r.vs() is Some ==> r.vs()->Some_0.ok(self.n()), r.ve() is Some ==> r.ve()->Some_0.ok(self.n()),
    ensures ret.is(if r.vs() is Some { r.vs()->Some_0.index as int } else { 0 }, if r.ve() is Some { r.ve()->Some_0.index as int } else { self.n() }), ret.ok(self.n()),
@body
    proof { r.one_point(); }
@closure 1
    Index<'id, P>; z: usize
    ensures z == $1.index
@closure 2
    Index<'id, P>; z: usize
    ensures z == $1.index
@@ fn Container::forward
@spec
    requires self.wf(), old(index).ok(self.n()),
    ensures final(index).ok(self.n()), ret == (old(index).index + 1 < self.n()),
        final(index).index == (if ret { old(index).index + 1 } else { old(index).index as int }),
@@ fn Container::forward_by
@spec
    requires self.wf(), old(index).ok(self.n()),
    ensures final(index).ok(self.n()), ret == (old(index).index + offset < self.n()),
        final(index).index == (if ret { old(index).index + offset } else { old(index).index as int }),
@@ fn Container::backward
@spec
    requires self.wf(), old(index).ok(self.n()),
    ensures final(index).ok(self.n()), ret == (old(index).index > 0),
        final(index).index == (if ret { old(index).index - 1 } else { old(index).index as int }),
@@ fn Container::forward_range_by
@spec
    requires self.wf(), r.ok(self.n()),
    ensures ret.is(vx::min(r.start + offset, self.n()), vx::min(r.end + offset, self.n())), ret.ok(self.n()),
@@ fn Container::scan_from
@opt trace f
@opt trty &'b T
@spec
    requires self.wf(), index.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
    ensures ret.ok(self.n()), ret.start == index.index,
        forall|k: int| index.index < k < ret.end ==> #[trigger] f.ensures((&self.cv()[k],), true),
        ret.end < self.n() ==> f.ensures((&self.cv()[ret.end as int],), false),
@body
    let ghost vx_f0 = f;
@forvar 1 it
@loop 1 for
        invariant_except_break end.index == index.index + it.index@, vx_tr@.len() == it.index@,
        invariant f == vx_f0, self.wf(), index.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)), index.index <= end.index < self.n(),
            forall|k: int| index.index < k <= end.index ==> #[trigger] f.ensures((&self.cv()[k],), true),
            forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[index.index + 1 + k],
        ensures vx_tr@.len() == end.index - index.index + (if end.index + 1 < self.n() { 1int } else { 0 }), end.index + 1 < self.n() ==> f.ensures((&self.cv()[end.index + 1],), false),
@exit
    assert(vx_tr@.len() == vx_ret.end - index.index - 1 + (if vx_ret.end < self.n() { 1int } else { 0 }));
    assert(forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[index.index + 1 + k]);
@@ fn Container::scan_from_rev
@opt trace f
@opt trty &'b T
@spec
    requires self.wf(), index.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
    ensures ret.ok(self.n()), ret.end == index.index + 1, ret.start <= index.index,
        forall|k: int| #![trigger f.ensures((&self.cv()[k],), true)] #![trigger self.cv()[k]] ret.start <= k < index.index ==> f.ensures((&self.cv()[k],), true),
        ret.start > 0 ==> f.ensures((&self.cv()[ret.start - 1],), false),
@body
    let ghost vx_f0 = f;
@forvar 1 it
@loop 1 for
        invariant_except_break start.index == index.index - it.index@, vx_tr@.len() == it.index@,
        invariant f == vx_f0, self.wf(), index.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)), start.index <= index.index < self.n(),
            forall|k: int| start.index <= k < index.index ==> #[trigger] f.ensures((&self.cv()[k],), true),
            forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[index.index - 1 - k],
        ensures vx_tr@.len() == index.index - start.index + (if start.index > 0 { 1int } else { 0 }), start.index > 0 ==> f.ensures((&self.cv()[start.index - 1],), false),
@exit
    assert(vx_tr@.len() == index.index - vx_ret.start + (if vx_ret.start > 0 { 1int } else { 0 }));
    assert(forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[index.index - 1 - k]);
@@ fn Container::scan_range
@opt trace f
@opt trty &'b T
@spec
    requires self.wf(), range.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)),
    ensures ret.0.ok(self.n()), ret.1.ok(self.n()), ret.0.start == range.start, ret.0.end == ret.1.start, ret.1.end == range.end,
        forall|k: int| range.start <= k < ret.0.end ==> #[trigger] f.ensures((&self.cv()[k],), true),
        ret.0.end < range.end ==> f.ensures((&self.cv()[ret.0.end as int],), false),
@body
    let ghost vx_f0 = f;
@forvar 1 it
@loop 1 for
        invariant_except_break end == range.start + it.index@, vx_tr@.len() == it.index@,
        invariant f == vx_f0, self.wf(), range.ok(self.n()), forall|k: int| 0 <= k < self.n() ==> #[trigger] f.requires((&self.cv()[k],)), range.start <= end <= range.end,
            forall|k: int| range.start <= k < end ==> #[trigger] f.ensures((&self.cv()[k],), true),
            forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[range.start + k],
        ensures vx_tr@.len() == end - range.start + (if end < range.end { 1int } else { 0 }), end < range.end ==> f.ensures((&self.cv()[end as int],), false),
@exit
    assert(vx_tr@.len() == vx_ret.0.end - range.start + (if vx_ret.0.end < range.end { 1int } else { 0 }));
    assert(forall|k: int| 0 <= k < vx_tr@.len() ==> *#[trigger] vx_tr@[k] == self.cv()[range.start + k]);
@@ fn Container::swap
@opt rawmem
@spec
    requires old(self).wf(), i.ok(old(self).n()), j.ok(old(self).n()),
    ensures final(self).vx_fut() == old(self).vx_fut(), final(self).cv() == old(self).cv().update(i.index as int, old(self).cv()[j.index as int]).update(j.index as int, old(self).cv()[i.index as int]),
@@ fn Container::rotate1_up
@opt rawmem
@spec
    requires old(self).wf(), r.vx_wf(), r.vx_end() <= old(self).n(),
    ensures final(self).vx_fut() == old(self).vx_fut(), final(self).cv() == vx_rot_up(old(self).cv(), r.vx_start(), r.vx_end()),
@@ fn Container::rotate1_down
@opt rawmem
@spec
    requires old(self).wf(), r.vx_wf(), r.vx_end() <= old(self).n(),
    ensures final(self).vx_fut() == old(self).vx_fut(), final(self).cv() == vx_rot_down(old(self).cv(), r.vx_start(), r.vx_end()),
@@ fn Container::index_twice
@opt rawmem
@spec
    requires old(self).wf(), r.ok(old(self).n()), s.ok(old(self).n()),
    ensures final(self).vx_fut() == old(self).vx_fut(), ret is Ok <==> r.end <= s.start,
        ret is Err ==> final(self).cv() == old(self).cv(),
        ret is Ok ==> ret->Ok_0.0@ == old(self).cv().subrange(r.start as int, r.end as int) && ret->Ok_0.1@ == old(self).cv().subrange(s.start as int, s.end as int)
            && final(self).cv() == vx_two(old(self).cv(), r.start as int, final(ret->Ok_0.0)@, s.start as int, final(ret->Ok_0.1)@),
@@ fn Container::zip_mut_raw
@opt rawmem
@opt rawcoerce
@opt trace f
@opt trty (*mut T, *mut T)
@spec
    requires old(self).wf(), r.ok(old(self).n()), s.ok(old(self).n()),
        forall|p: *mut T, q: *mut T, k: int| #![trigger vxp::at::<T>(p@.addr, r.start + k), vxp::at::<T>(q@.addr, s.start + k)] 0 <= k < r.slen() && k < s.slen() && vxp::at::<T>(p@.addr, r.start + k) && vxp::at::<T>(q@.addr, s.start + k) ==> f.requires((p, q)),
@forvar 1 it
@loop 1 for
        invariant f == vx_f0, self.wf(), self.n() == old(self).n(), r.ok(self.n()), s.ok(self.n()), len == vx::min(r.slen(), s.slen()),
            vx_tr@.len() == i,
            forall|k: int| 0 <= k < i ==> vxp::at::<T>((#[trigger] vx_tr@[k]).0@.addr, r.start + k) && vxp::at::<T>(vx_tr@[k].1@.addr, s.start + k),
        forall|p: *mut T, q: *mut T, k: int| #![trigger vxp::at::<T>(p@.addr, r.start + k), vxp::at::<T>(q@.addr, s.start + k)] 0 <= k < r.slen() && k < s.slen() && vxp::at::<T>(p@.addr, r.start + k) && vxp::at::<T>(q@.addr, s.start + k) ==> f.requires((p, q)),
@body
    let ghost vx_f0 = f;
@exit
    assert(vx_tr@.len() == vx::min(r.slen(), s.slen()) && forall|k: int| 0 <= k < vx_tr@.len() ==> vxp::at::<T>((#[trigger] vx_tr@[k]).0@.addr, r.start + k) && vxp::at::<T>(vx_tr@[k].1@.addr, s.start + k));
@@ modend container
/// address of an element (every storage keeps element k at base + k * size)
#[verifier::external_body]
pub unsafe fn vx_elt_ptr<'id, A: GetUnchecked, M>(c: &Container<'id, A, M>, i: Index<'id>) -> (ret: *const A::Item)
    requires c.wf(), i.ok(c.n()),
    ensures vxp::at::<A::Item>(ret@.addr, i.index as int), vxp::fits::<A::Item>(c.n()),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_elt_ptr_mut<'id, A: GetUncheckedMut, M>(c: &mut Container<'id, A, M>, i: Index<'id>) -> (ret: *mut A::Item)
    requires old(c).wf(), i.ok(old(c).n()),
    ensures final(c).vx_fut() == old(c).vx_fut(), vxp::at::<A::Item>(ret@.addr, i.index as int), vxp::fits::<A::Item>(old(c).n()), final(c).cv() == old(c).cv(),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_ref<'a, A: Trustworthy + ?Sized>(p: *const A::Item, arr: &'a A) -> (ret: &'a A::Item)
    requires exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + 1 <= arr.tview().len(),
    ensures forall|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k < arr.tview().len() ==> *ret == arr.tview()[k],
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_ptr_read<A: Trustworthy + ?Sized>(p: *const A::Item, arr: &A) -> (ret: A::Item)
    requires exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + 1 <= arr.tview().len(),
    ensures forall|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k < arr.tview().len() ==> ret == arr.tview()[k],
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_ptr_write<A: Trustworthy + ?Sized>(p: *mut A::Item, x: A::Item, arr: &mut A)
    requires exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + 1 <= (*old(arr)).tview().len(),
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k < (*old(arr)).tview().len() ==> (*final(arr)).tview() == (*old(arr)).tview().update(k, x),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_ptr_copy_ref<A: Trustworthy + ?Sized>(x: &A::Item, p: *mut A::Item, n: usize, arr: &mut A)
    requires n == 1, exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + 1 <= (*old(arr)).tview().len(),
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k < (*old(arr)).tview().len() ==> (*final(arr)).tview() == (*old(arr)).tview().update(k, *x),
{ unimplemented!() }
pub open spec fn vx_moved<T>(s: Seq<T>, a: int, b: int, n: int) -> Seq<T> {
    Seq::new(s.len(), |k: int| if b <= k < b + n { s[a + (k - b)] } else { s[k] })
}
#[verifier::external_body]
pub unsafe fn vx_ptr_copy<A: Trustworthy + ?Sized>(p: *const A::Item, q: *mut A::Item, n: usize, arr: &mut A)
    requires exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + n <= (*old(arr)).tview().len(), exists|k: int| #[trigger] vxp::at::<A::Item>(q@.addr, k) && 0 <= k && k + n <= (*old(arr)).tview().len(),
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|a: int, b: int| #[trigger] vxp::at::<A::Item>(p@.addr, a) && #[trigger] vxp::at::<A::Item>(q@.addr, b) && 0 <= a && a + n <= (*old(arr)).tview().len() && 0 <= b && b + n <= (*old(arr)).tview().len()
        ==> (*final(arr)).tview() == vx_moved((*old(arr)).tview(), a, b, n as int),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_ptr_copy_nonoverlapping<A: Trustworthy + ?Sized>(p: *const A::Item, q: *mut A::Item, n: usize, arr: &mut A)
    requires exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + n <= (*old(arr)).tview().len(), exists|k: int| #[trigger] vxp::at::<A::Item>(q@.addr, k) && 0 <= k && k + n <= (*old(arr)).tview().len(),
        p@.addr + n * vxp::sz::<A::Item>() <= q@.addr || q@.addr + n * vxp::sz::<A::Item>() <= p@.addr,
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|a: int, b: int| #[trigger] vxp::at::<A::Item>(p@.addr, a) && #[trigger] vxp::at::<A::Item>(q@.addr, b) && 0 <= a && a + n <= (*old(arr)).tview().len() && 0 <= b && b + n <= (*old(arr)).tview().len()
        ==> (*final(arr)).tview() == vx_moved((*old(arr)).tview(), a, b, n as int),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_ptr_swap<A: Trustworthy + ?Sized>(p: *mut A::Item, q: *mut A::Item, arr: &mut A)
    requires exists|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + 1 <= (*old(arr)).tview().len(), exists|k: int| #[trigger] vxp::at::<A::Item>(q@.addr, k) && 0 <= k && k + 1 <= (*old(arr)).tview().len(),
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|a: int, b: int| #[trigger] vxp::at::<A::Item>(p@.addr, a) && #[trigger] vxp::at::<A::Item>(q@.addr, b) && 0 <= a < (*old(arr)).tview().len() && 0 <= b < (*old(arr)).tview().len()
        ==> (*final(arr)).tview() == (*old(arr)).tview().update(a, (*old(arr)).tview()[b]).update(b, (*old(arr)).tview()[a]),
{ unimplemented!() }
/// s with the parts from a and b on replaced
pub open spec fn vx_two<T>(s: Seq<T>, a: int, x: Seq<T>, b: int, y: Seq<T>) -> Seq<T> {
    Seq::new(s.len(), |k: int| if a <= k < a + x.len() { x[k - a] } else if b <= k < b + y.len() { y[k - b] } else { s[k] })
}
/// two disjoint parts of a container borrowed at once
#[verifier::external_body]
pub unsafe fn vx_index_two<'a, 'id, A: ContiguousMut, M, P, Q>(c: &'a mut Container<'id, A, M>, r: Range<'id, P>, s: Range<'id, Q>) -> (ret: (&'a mut [A::Item], &'a mut [A::Item]))
    requires old(c).wf(), r.ok(old(c).n()), s.ok(old(c).n()), r.end <= s.start || s.end <= r.start,
    ensures final(c).vx_fut() == old(c).vx_fut(), ret.0@ == old(c).cv().subrange(r.start as int, r.end as int), ret.1@ == old(c).cv().subrange(s.start as int, s.end as int),
        final(c).cv() == vx_two(old(c).cv(), r.start as int, final(ret.0)@, s.start as int, final(ret.1)@),
{ unimplemented!() }
/// address of an element of a storage
#[verifier::external_body]
pub unsafe fn vx_get_ptr<A: GetUncheckedMut>(a: &mut A, i: usize) -> (ret: *mut A::Item)
    requires i < (*old(a)).tview().len(),
    ensures (*final(a)).vx_fut() == (*old(a)).vx_fut(), vxp::at::<A::Item>(ret@.addr, i as int), vxp::fits::<A::Item>((*old(a)).tview().len() as int), (*final(a)).tview() == (*old(a)).tview(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_forget<T>(x: T)
{ unimplemented!() }
@@ fn Container::push
@spec
    requires old(self).n() < vx::maxlen(),
    ensures final(self).vx_fut() == old(self).vx_fut(), ret.index == old(self).n(), final(self).cv() == old(self).cv().push(element), ret.ok(final(self).n()),
@@ fn Container::insert
@spec
    requires old(self).n() < vx::maxlen(), index.ok(old(self).n()),
    ensures final(self).vx_fut() == old(self).vx_fut(), final(self).cv() == old(self).cv().insert(index.index as int, element),
@@ fn Container::make_twin
@spec
    requires self.wf(),
    ensures ret is Ok <==> self.n() == arr.tview().len(), ret is Ok ==> ret->Ok_0.arr == arr,
@@ modend container
/// rotate s[lo..hi] by one towards higher indices (no-op when it has fewer than two elements)
pub open spec fn vx_rot_up<T>(s: Seq<T>, lo: int, hi: int) -> Seq<T> {
    if lo + 1 < hi { Seq::new(s.len(), |k: int| if lo < k < hi { s[k - 1] } else if k == lo { s[hi - 1] } else { s[k] }) } else { s }
}
pub open spec fn vx_rot_down<T>(s: Seq<T>, lo: int, hi: int) -> Seq<T> {
    if lo + 1 < hi { Seq::new(s.len(), |k: int| if lo <= k < hi - 1 { s[k + 1] } else if k == hi - 1 { s[lo] } else { s[k] }) } else { s }
}
pub open spec fn vx_splice<T>(s: Seq<T>, lo: int, hi: int, t: Seq<T>) -> Seq<T> {
    Seq::new(s.len(), |k: int| if lo <= k < hi { t[k - lo] } else { s[k] })
}
/// raw slice over the storage `arr`, which p points into
#[verifier::external_body]
pub unsafe fn vx_from_raw_parts<'a, A: Contiguous>(p: *const A::Item, len: usize, arr: &'a A) -> (ret: &'a [A::Item])
    requires exists|k: int| vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + len <= arr.tview().len(),
    ensures forall|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + len <= arr.tview().len() ==> ret@ == arr.tview().subrange(k, k + len),
{ std::slice::from_raw_parts(p, len) }
#[verifier::external_body]
pub unsafe fn vx_from_raw_parts_mut<'a, A: ContiguousMut>(p: *mut A::Item, len: usize, arr: &'a mut A) -> (ret: &'a mut [A::Item])
    requires exists|k: int| vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + len <= (*old(arr)).tview().len(),
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|k: int| #[trigger] vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + len <= (*old(arr)).tview().len() ==>
        ret@ == (*old(arr)).tview().subrange(k, k + len) && (*final(arr)).tview() == vx_splice((*old(arr)).tview(), k, k + len, final(ret)@),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_two_raw_parts_mut<'a, A: ContiguousMut>(p: *mut A::Item, m: usize, q: *mut A::Item, n: usize, arr: &'a mut A) -> (ret: (&'a mut [A::Item], &'a mut [A::Item]))
    requires p@.addr + m * vxp::sz::<A::Item>() <= q@.addr || q@.addr + n * vxp::sz::<A::Item>() <= p@.addr,
        exists|k: int| vxp::at::<A::Item>(p@.addr, k) && 0 <= k && k + m <= (*old(arr)).tview().len(),
        exists|k: int| vxp::at::<A::Item>(q@.addr, k) && 0 <= k && k + n <= (*old(arr)).tview().len(),
    ensures (*final(arr)).vx_fut() == (*old(arr)).vx_fut(), forall|j: int, k: int| #[trigger] vxp::at::<A::Item>(p@.addr, j) && 0 <= j && j + m <= (*old(arr)).tview().len() && #[trigger] vxp::at::<A::Item>(q@.addr, k) && 0 <= k && k + n <= (*old(arr)).tview().len() ==>
        ret.0@ == (*old(arr)).tview().subrange(j, j + m) && ret.1@ == (*old(arr)).tview().subrange(k, k + n) && (*final(arr)).tview() == vx_two((*old(arr)).tview(), j, final(ret.0)@, k, final(ret.1)@),
{ unimplemented!() }
@@ mod container
use crate::vxp;
@@ beforeimpl Index<Index> for Container<Array,_>
impl<'id, Array, M> vstd::std_specs::core::IndexSpecImpl<Index<'id>> for Container<'id, Array, M> where Array: GetUnchecked {
    open spec fn index_req(&self, index: &Index<'id>) -> bool { self.wf() && index.ok(self.n()) }
}
@@ fn Index<Index> for Container<Array,_>::index
@spec
    ensures *ret == self.cv()[index.index as int],
@@ fn IndexMut<Index> for Container<Array,_>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), *ret == old(self).cv()[index.index as int], final(self).cv() == old(self).cv().update(index.index as int, *final(ret)),
@@ beforeimpl Index<Range<_>> for Container<Array,_>
impl<'id, T, Array, P, M> vstd::std_specs::core::IndexSpecImpl<Range<'id, P>> for Container<'id, Array, M> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &Range<'id, P>) -> bool { self.wf() && r.ok(self.n()) }
}
@@ fn Index<Range<_>> for Container<Array,_>::index
@sigrewrite Self::Output => [T]
@spec
    ensures ret@ == self.cv().subrange(r.start as int, r.end as int),
@body
    proof { vxp::lem_in0::<Array::Item>(r.start as int, self.n()); }
@@ fn IndexMut<Range<_>> for Container<Array,_>::index_mut
@sigrewrite Self::Output => [Array::Item]
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv().subrange(r.start as int, r.end as int),
        final(self).cv() == vx_splice(old(self).cv(), r.start as int, r.end as int, final(ret)@),
@body
    proof { vxp::lem_in0::<Array::Item>(r.start as int, self.n()); }
@@ beforeimpl Index<RangeFrom<Index<_>>> for Container<Array,_>
impl<'id, T, P, Array, M> vstd::std_specs::core::IndexSpecImpl<ops::RangeFrom<Index<'id, P>>> for Container<'id, Array, M> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &ops::RangeFrom<Index<'id, P>>) -> bool { self.wf() && r.start.ok(self.n()) }
}
@@ fn Index<RangeFrom<Index<_>>> for Container<Array,_>::index
@spec
    ensures ret@ == self.cv().subrange(r.start.index as int, self.n() as int),
@body
    proof { vxp::lem_in0::<Array::Item>(r.start.index as int, self.n()); }
@@ fn IndexMut<RangeFrom<Index<_>>> for Container<Array,_>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv().subrange(r.start.index as int, old(self).n() as int),
        final(self).cv() == vx_splice(old(self).cv(), r.start.index as int, old(self).n() as int, final(ret)@),
@body
    proof { vxp::lem_in0::<Array::Item>(r.start.index as int, self.n()); }
@@ beforeimpl Index<RangeTo<Index<_>>> for Container<Array,_>
impl<'id, T, P, Array, M> vstd::std_specs::core::IndexSpecImpl<ops::RangeTo<Index<'id, P>>> for Container<'id, Array, M> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &ops::RangeTo<Index<'id, P>>) -> bool { self.wf() && r.end.ok(self.n()) }
}
@@ fn Index<RangeTo<Index<_>>> for Container<Array,_>::index
@spec
    ensures ret@ == self.cv().subrange(0 as int, r.end.index as int),
@body
    proof { vxp::lem_in0::<Array::Item>(0, self.n()); }
@@ fn IndexMut<RangeTo<Index<_>>> for Container<Array,_>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv().subrange(0 as int, r.end.index as int),
        final(self).cv() == vx_splice(old(self).cv(), 0 as int, r.end.index as int, final(ret)@),
@body
    proof { vxp::lem_in0::<Array::Item>(0, self.n()); }
@@ beforeimpl Index<RangeFull> for Container<Array,_>
impl<'id, T, Array, M> vstd::std_specs::core::IndexSpecImpl<ops::RangeFull> for Container<'id, Array, M> where Array: Contiguous<Item=T> {
    open spec fn index_req(&self, r: &ops::RangeFull) -> bool { self.wf() && true }
}
@@ fn Index<RangeFull> for Container<Array,_>::index
@spec
    ensures ret@ == self.cv().subrange(0 as int, self.n() as int),
@@ fn IndexMut<RangeFull> for Container<Array>::index_mut
@spec
    ensures final(self).vx_fut() == old(self).vx_fut(), ret@ == old(self).cv(), final(self).cv() == final(ret)@,
@@ replace enum OnlyIndex
#[verifier::external] pub enum OnlyIndex {}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOnlyIndex(OnlyIndex);
@@ instdefaults IndexRange
@@ in IndexRange<_> for RangeFull
    open spec fn vs(&self) -> Option<I> { None }
    open spec fn ve(&self) -> Option<I> { None }
@@ in IndexRange<_> for RangeFrom<_>
    open spec fn vs(&self) -> Option<I> { Some(self.start) }
    open spec fn ve(&self) -> Option<I> { None }
@@ in IndexRange<_> for RangeTo<_>
    open spec fn vs(&self) -> Option<I> { None }
    open spec fn ve(&self) -> Option<I> { Some(self.end) }
@@ in IndexRange<_> for Range<_>
    open spec fn vs(&self) -> Option<I> { Some(self.start) }
    open spec fn ve(&self) -> Option<I> { Some(self.end) }
@@ in OnePointRange<_> for RangeFrom<_>
    proof fn one_point(&self) {}
@@ in OnePointRange<_> for RangeTo<_>
    proof fn one_point(&self) {}
@@ in OnePointRange<_> for RangeFull
    proof fn one_point(&self) {}
@@ fn IndexRange<_> for RangeFull::start
@@ fn IndexRange<_> for RangeFull::end
@@ fn IndexRange<_> for RangeFrom<_>::start
@@ fn IndexRange<_> for RangeFrom<_>::end
@@ fn IndexRange<_> for RangeTo<_>::start
@@ fn IndexRange<_> for RangeTo<_>::end
@@ fn IndexRange<_> for Range<_>::start
@@ fn IndexRange<_> for Range<_>::end
@@ fn Trustworthy for &C::base_len
@@ fn Trustworthy for &mutC::base_len
@@ fn ContiguousMut for &mutC::begin_mut
@@ fn ContiguousMut for &mutC::end_mut
@@ fn ContiguousMut for &mutC::as_mut_slice
@@ fn GetUnchecked for &C::xget_unchecked
@@ fn GetUnchecked for &mutC::xget_unchecked
@@ fn GetUncheckedMut for &mutC::xget_unchecked_mut
@@ fn Contiguous for &C::begin
@@ fn Contiguous for &C::end
@@ fn Contiguous for &C::as_slice
@@ fn Contiguous for &mutC::begin
@@ fn Contiguous for &mutC::end
@@ fn Contiguous for &mutC::as_slice
@@ fn Trustworthy for [_]::base_len
@@ fn ContiguousMut for [_]::begin_mut
@@ fn ContiguousMut for [_]::end_mut
@body
    broadcast use crate::vxp::grpl;
@@ fn ContiguousMut for [_]::as_mut_slice
@@ fn GetUnchecked for [_]::xget_unchecked
@rewrite self.get_unchecked(i) => crate::vx_get_unchecked(self, i)
@@ fn GetUncheckedMut for [_]::xget_unchecked_mut
@rewrite self.get_unchecked_mut(i) => crate::vx_get_unchecked_mut(self, i)
@@ fn Contiguous for [_]::begin
@@ fn Contiguous for [_]::end
@body
    broadcast use crate::vxp::grpl;
@@ fn Contiguous for [_]::as_slice
@@ fn Trustworthy for Vec<_>::base_len
@@ fn ContiguousMut for Vec<_>::begin_mut
@@ fn ContiguousMut for Vec<_>::end_mut
@@ fn ContiguousMut for Vec<_>::as_mut_slice
@@ fn GetUnchecked for Vec<_>::xget_unchecked
@rewrite self.get_unchecked(i) => crate::vx_get_unchecked(self, i)
@@ fn GetUncheckedMut for Vec<_>::xget_unchecked_mut
@rewrite self.get_unchecked_mut(i) => crate::vx_get_unchecked_mut(self, i)
@@ fn Contiguous for Vec<_>::begin
@@ fn Contiguous for Vec<_>::end
@@ fn Contiguous for Vec<_>::as_slice
@@ fn Pushable for Vec<_>::push
@@ fn Pushable for Vec<_>::insert_unchecked
@@ fn Pushable for &mutC::push
@@ fn Pushable for &mutC::insert_unchecked

@@ root
#[verifier::external_body]
pub unsafe fn vx_get_unchecked<T>(s: &[T], i: usize) -> (ret: &T)
    requires i < s@.len(), ensures *ret == s@[i as int],
{ s.get_unchecked(i) }
#[verifier::external_body]
pub unsafe fn vx_get_unchecked_mut<T>(s: &mut [T], i: usize) -> (ret: &mut T)
    requires i < old(s)@.len(), ensures *ret == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(ret)),
{ s.get_unchecked_mut(i) }
@@ fn Clone for Container<Array,Mode>::clone
@spec
    ensures call_ensures(Array::clone, (&self.arr,), ret.arr),
## scope itself: its closure gets a container over exactly the array given
@@ fn scope
@opt noscope 1
@spec
    requires forall|c: Container<'_, Array>| c.arr == arr ==> #[trigger] f.requires((c,)),
    ensures exists|c: Container<'_, Array>| c.arr == arr && #[trigger] f.ensures((c,), ret),
@@ fn index_error
@spec
    ensures true,
@@ fn Clone for IndexingError::clone
@spec
    ensures ret == *self,
@@ beforeimpl From<&str> for AlgorithmError
impl vstd::std_specs::convert::FromSpecImpl<&'static str> for AlgorithmError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'static str) -> Self { AlgorithmError(v) }
}
@@ fn From<&str> for AlgorithmError::from
@spec
    ensures ret.0 == s,
@@ fn IndexingError::description
@spec
    ensures true,
