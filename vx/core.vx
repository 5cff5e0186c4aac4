## Ghost prelude and contracts for lib.rs, proof.rs, indexing.rs
@@ root
/// Ghost vocabulary.
pub mod vx {
use vstd::prelude::*;
/// "P is the NonEmpty proof marker"
pub open spec fn ne<P>() -> bool { ne_at::<P>(0) }
pub uninterp spec fn ne_at<P>(i: int) -> bool;
pub broadcast axiom fn ax_ne_nonempty(i: int) ensures #[trigger] ne_at::<crate::proof::NonEmpty>(i);
pub broadcast axiom fn ax_ne_unknown(i: int) ensures !#[trigger] ne_at::<crate::proof::Unknown>(i);
pub broadcast proof fn lem_shr1(x: usize) ensures #[trigger] (x >> 1) == x / 2 { assert(x >> 1 == x / 2) by(bit_vector); }
pub broadcast proof fn lem_and1(x: usize) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by(bit_vector); }
/// `Ordering`s are equal when they are the same (std)
pub broadcast axiom fn ax_ordering_obeys() ensures #[trigger] <core::cmp::Ordering as vstd::std_specs::cmp::PartialEqSpec<core::cmp::Ordering>>::obeys_eq_spec();
pub broadcast axiom fn ax_ordering_eq(a: core::cmp::Ordering, b: core::cmp::Ordering)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
pub broadcast group grp { ax_ne_nonempty, ax_ne_unknown, lem_shr1, lem_and1, ax_ordering_obeys, ax_ordering_eq }
/// every container is at most this long (true for every allocation of sized elements)
pub open spec fn maxlen() -> int { isize::MAX as int }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
}
broadcast use vx::grp;
pub assume_specification<T: core::cmp::Ord> [ core::cmp::min ] (a: T, b: T) -> (r: T)
    ensures r == a || r == b, <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vx_le(a, b) { a } else { b });
pub assume_specification<T: core::cmp::Ord> [ core::cmp::max ] (a: T, b: T) -> (r: T)
    ensures r == a || r == b, <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vx_le(a, b) { b } else { a });
pub open spec fn vx_le<T: core::cmp::Ord>(a: T, b: T) -> bool { vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) != core::cmp::Ordering::Greater }
pub fn vx_debug_assert(b: bool) requires b {}

impl<'id, P> Index<'id, P> {
    /// carries the proof of pointing to an element
    pub open spec fn ne(&self) -> bool { vx::ne::<P>() }
    /// valid for a container of length n
    pub open spec fn ok(&self, n: int) -> bool { self.index <= n && n <= vx::maxlen() && (self.ne() ==> self.index < n) }
    pub open spec fn wf(&self) -> bool { self.index <= vx::maxlen() && (self.ne() ==> self.index < vx::maxlen()) }
}
impl<'id, P> Range<'id, P> {
    pub open spec fn ne(&self) -> bool { vx::ne::<P>() }
    /// the type invariant of a range
    pub open spec fn wf(&self) -> bool { self.start <= self.end && self.end <= vx::maxlen() && (self.ne() ==> self.start < self.end) }
    /// valid for a container of length n
    pub open spec fn ok(&self, n: int) -> bool { self.wf() && self.end <= n && n <= vx::maxlen() }
    /// inside [lo, hi)
    pub open spec fn inside(&self, lo: int, hi: int) -> bool { self.wf() && lo <= self.start && self.end <= hi }
    pub open spec fn is(&self, lo: int, hi: int) -> bool { self.start == lo && self.end == hi }
    pub open spec fn slen(&self) -> int { self.end - self.start }
}
/// an index lies inside the range (dereferenceable if it says so)
pub open spec fn vx_in<'id, P, Q>(i: Index<'id, P>, r: Range<'id, Q>) -> bool {
    r.start <= i.index <= r.end && (i.ne() ==> i.index < r.end)
}

@@ replace enum NonEmpty
#[verifier::external] pub enum NonEmpty {}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExNonEmpty(NonEmpty);
@@ replace enum Unknown
#[verifier::external] pub enum Unknown {}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUnknown(Unknown);

@@ fn Index::new
@spec
    requires index <= vx::maxlen(),
    ensures ret.index == index,
@@ fn Index::assume_any_index
@spec
    requires other.index <= vx::maxlen(),
    ensures ret.index == other.index,
@@ fn Range::from
@spec
    requires start <= end,
    ensures ret.start == start, ret.end == end,
@@ fn Range::from_ne
@spec
    requires start < end,
    ensures ret.start == start, ret.end == end,
@@ fn Range::from_any
@spec
    requires start <= end, vx::ne::<P>() ==> start < end,
    ensures ret.start == start, ret.end == end,
@@ fn Range::assume_nonempty_range
@spec
    requires other.start < other.end,
    ensures ret.start == other.start, ret.end == other.end,
@@ fn Range::assume_any_range
@spec
    requires other.start <= other.end, vx::ne::<P>() ==> other.start < other.end,
    ensures ret.start == other.start, ret.end == other.end,
@@ fn Default for Id::default
## ---------------------------------------------------------------- indexing.rs: Index
@@ fn Index::integer
@spec
    ensures ret == self.index,
@@ fn Index::after
@spec
    requires self.wf(),
    ensures ret.index == self.index + 1, !ret.ne(), forall|n: int| #[trigger] self.ok(n) ==> ret.ok(n),
## ---------------------------------------------------------------- indexing.rs: Range
@@ fn Range::order_key
@spec
    ensures ret.0 == self.start, ret.1 == self.end,
@@ fn Range::len
@spec
    requires self.wf(),
    ensures ret == self.end - self.start,
@@ fn Range::is_empty
@spec
    requires self.wf(),
    ensures ret == (self.start >= self.end),
@@ fn Range::nonempty
@spec
    requires self.wf(),
    ensures ret is Ok <==> self.start < self.end,
        ret is Ok ==> ret->Ok_0.is(self.start as int, self.end as int) && ret->Ok_0.inside(self.start as int, self.end as int),
@@ fn Range::start
@spec
    ensures ret == self.start,
@@ fn Range::end
@spec
    ensures ret == self.end,
@@ fn Range::split_in_half
@spec
    requires self.wf(),
    ensures
        ret.0.is(self.start as int, self.start + (self.end - self.start) / 2),
        ret.1.is(self.start + (self.end - self.start) / 2, self.end as int),
        ret.0.inside(self.start as int, self.end as int), ret.1.inside(self.start as int, self.end as int),
@@ fn Range::split_at
@spec
    requires self.wf(),
    ensures
        ret.2 == (index <= self.end - self.start),
        ret.0.is(self.start as int, self.start + vx::min(index as int, self.end - self.start)),
        ret.1.is(self.start + vx::min(index as int, self.end - self.start), self.end as int),
        ret.0.inside(self.start as int, self.end as int), ret.1.inside(self.start as int, self.end as int),
@@ fn Range::contains
@spec
    requires self.wf(),
    ensures ret is Some <==> self.start <= abs_index < self.end,
        ret is Some ==> ret->Some_0.index == abs_index && vx_in(ret->Some_0, *self),
@@ fn Range::join
@where
@spec
    requires self.wf(), other.wf(),
    ensures ret is Ok <==> self.end == other.start,
        ret is Ok ==> ret->Ok_0.is(self.start as int, other.end as int) && ret->Ok_0.inside(self.start as int, other.end as int),
@body
    proof { vx_ax_sum::<P, Q>(); }
@@ fn Range::join_cover
@spec
    requires self.wf(), other.wf(),
    ensures ret.is(self.start as int, vx::max(self.end as int, other.end as int)),
        ret.inside(self.start as int, vx::max(self.end as int, other.end as int)),
@@ fn Range::join_cover_both
@spec
    requires self.wf(), other.wf(),
    ensures ret.is(vx::min(self.start as int, other.start as int), vx::max(self.end as int, other.end as int)),
        ret.inside(vx::min(self.start as int, other.start as int), vx::max(self.end as int, other.end as int)),
@body
    proof { vx_ax_sum::<P, Q>(); }
@@ fn Range::as_range
@spec
    ensures ret.start == self.start, ret.end == self.end,
@@ fn Range::frontiers
@spec
    requires self.wf(),
    ensures ret.0.is(self.start as int, self.start as int), ret.1.is(self.end as int, self.end as int),
        ret.0.inside(self.start as int, self.end as int), ret.1.inside(self.start as int, self.end as int),
@@ fn Range::forward_by
@spec
    requires self.wf(), old(index).wf(),
    ensures
        ret == (old(index).index + offset < self.end),
        ret ==> final(index).index == old(index).index + offset,
        !ret ==> final(index).index == old(index).index,
@@ fn Range::forward_range_by
@spec
    requires self.wf(), r.wf(),
    ensures
        ret.is(vx::min(r.start + offset, self.end as int), vx::min(r.end + offset, self.end as int)),
        ret.wf(), ret.end <= self.end,
@@ fn Range::no_proof
@spec
    requires self.wf(),
    ensures ret.is(self.start as int, self.end as int), ret.wf(),
@@ in trait IntoCheckedRange
    spec fn vx_start(&self) -> int;
    spec fn vx_end(&self) -> int;
    spec fn vx_wf(&self) -> bool;
@@ fn trait IntoCheckedRange::into
@spec
    requires self.vx_wf(),
    ensures ret is Ok <==> self.vx_start() < self.vx_end(),
        ret is Ok ==> ret->Ok_0.is(self.vx_start(), self.vx_end()) && ret->Ok_0.wf(),
@@ in IntoCheckedRange for Range
    open spec fn vx_start(&self) -> int { self.start as int }
    open spec fn vx_end(&self) -> int { self.end as int }
    open spec fn vx_wf(&self) -> bool { self.wf() }
@@ fn IntoCheckedRange for Range::into
@@ in IntoCheckedRange for Range<NonEmpty>
    open spec fn vx_start(&self) -> int { self.start as int }
    open spec fn vx_end(&self) -> int { self.end as int }
    open spec fn vx_wf(&self) -> bool { self.wf() }
@@ fn IntoCheckedRange for Range<NonEmpty>::into
@@ fn Range::first
@spec
    requires self.wf(),
    ensures ret.index == self.start, vx_in(ret, *self),
@@ fn Range::upper_middle
@spec
    requires self.wf(),
    ensures ret.index == self.start + (self.end - self.start) / 2, vx_in(ret, *self),
@@ fn Range::past_the_end
@spec
    requires self.wf(),
    ensures ret.index == self.end, vx_in(ret, self),
@@ fn Range::lower_middle
@spec
    requires self.wf(),
    ensures ret.index == self.start + (self.end - self.start - 1) / 2, vx_in(ret, *self),
@@ fn Range::last
@spec
    requires self.wf(),
    ensures ret.index == self.end - 1, vx_in(ret, *self),
@@ fn Range::tail
@spec
    requires self.wf(),
    ensures ret.is(self.start + 1, self.end as int), ret.inside(self.start as int, self.end as int),
@@ fn Range::init
@spec
    requires self.wf(),
    ensures ret.is(self.start as int, self.end - 1), ret.inside(self.start as int, self.end as int),
@@ fn Range::advance_
@spec
    requires self.wf(),
    ensures ret is Ok <==> self.start + 1 < self.end,
        ret is Ok ==> ret->Ok_0.is(self.start + 1, self.end as int) && ret->Ok_0.wf(),
@@ fn Range::advance
@spec
    requires old(self).wf(),
    ensures ret == (old(self).start + 1 < old(self).end),
        final(self).wf(), final(self).end == old(self).end,
        final(self).start == (if ret { old(self).start + 1 } else { old(self).start as int }),
@@ fn Range::advance_by
@spec
    requires old(self).wf(),
    ensures ret == (old(self).start + offset < old(self).end),
        final(self).wf(), final(self).end == old(self).end,
        final(self).start == (if ret { old(self).start + offset } else { old(self).start as int }),
@@ fn Range::advance_back
@spec
    requires old(self).wf(),
    ensures ret == (old(self).start < old(self).end - 1),
        final(self).wf(), final(self).start == old(self).start,
        final(self).end == (if ret { old(self).end - 1 } else { old(self).end as int }),
## ---------------------------------------------------------------- proof.rs
@@ modend proof
/// The proof marker of a combined range. Trusted as a schema over all P, Q; the
/// two impls that define `Sum` are checked against it by vx_sum_ne / vx_sum_un.
#[verifier::external_body]
pub proof fn vx_ax_sum<P, Q>() where (P, Q): ProofAdd
    ensures vx::ne::<<(P, Q) as ProofAdd>::Sum>() == (vx::ne::<P>() || vx::ne::<Q>())
{ unimplemented!() }
pub proof fn vx_sum_ne<Q>()
    ensures vx::ne::<<(NonEmpty, Q) as ProofAdd>::Sum>() == true
{}
pub proof fn vx_sum_un<Q>()
    ensures vx::ne::<<(Unknown, Q) as ProofAdd>::Sum>() == vx::ne::<Q>()
{}
@@ in trait Provable
    spec fn vx_wf(&self) -> bool;
    spec fn vx_same(&self, o: Self::WithoutProof) -> bool;
@@ fn trait Provable::no_proof
@spec
    requires self.vx_wf(),
    ensures self.vx_same(ret),
@@ in Provable for Index<_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_same(&self, o: Index<'id, Unknown>) -> bool { self.index == o.index && o.wf() }
@@ in Provable for Range<_>
    open spec fn vx_wf(&self) -> bool { self.wf() }
    open spec fn vx_same(&self, o: Range<'id, Unknown>) -> bool { self.start == o.start && self.end == o.end && o.wf() }
@@ mod proof
use crate::vx;
broadcast use crate::vx::grp;
@@ mod indexing
use crate::vx;
broadcast use crate::vx::grp;
use crate::vx_in;
use crate::vx_debug_assert;
@@ mod container
use crate::vx;
broadcast use crate::vx::grp;
use crate::vx_in;
use crate::vx_debug_assert;
@@ mod container_traits
use crate::vx;
broadcast use crate::vx::grp;
use crate::vx_debug_assert;
@@ mod pointer
use crate::vx;
broadcast use {crate::vx::grp, crate::vxp::grpp, crate::pointer_ext::vx_lem_at};
use crate::vx_debug_assert;
@@ mod algorithms
use crate::vx;
broadcast use {crate::vx::grp, crate::vxp::grpp};
use crate::vx_in;
use crate::vx_debug_assert;
@@ mod index_error
impl std::fmt::Debug for IndexingError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { unimplemented!() } }
