## Contracts for the comparisons of indexing.rs (C18)
@@ modend indexing
pub open spec fn vx_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn vx_ord2(a: (usize, usize), b: (usize, usize)) -> Ordering { if a.0 != b.0 { vx_ord(a.0 as int, b.0 as int) } else { vx_ord(a.1 as int, b.1 as int) } }
/// pairs of integers compare lexicographically (std)
pub broadcast axiom fn ax_pair_cmp(a: (usize, usize), b: (usize, usize))
    ensures <(usize, usize) as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec(), #[trigger] vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == vx_ord2(a, b);
pub broadcast axiom fn ax_pair_partial_cmp(a: (usize, usize), b: (usize, usize))
    ensures <(usize, usize) as vstd::std_specs::cmp::PartialOrdSpec<(usize, usize)>>::obeys_partial_cmp_spec(), #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(vx_ord2(a, b));
pub broadcast axiom fn ax_pair_eq(a: (usize, usize), b: (usize, usize))
    ensures <(usize, usize) as vstd::std_specs::cmp::PartialEqSpec<(usize, usize)>>::obeys_eq_spec(), #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a.0 == b.0 && a.1 == b.1);
pub broadcast group grp_pair { ax_pair_cmp, ax_pair_partial_cmp, ax_pair_eq }
@@ beforeimpl PartialEq<Index<_>> for Index<_>
impl<'id, P, Q> vstd::std_specs::cmp::PartialEqSpecImpl<Index<'id, Q>> for Index<'id, P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Index<'id, Q>) -> bool { self.index == other.index }
}
impl<'id, P, Q> vstd::std_specs::cmp::PartialEqSpecImpl<Range<'id, Q>> for Range<'id, P> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Range<'id, Q>) -> bool { self.start == other.start && self.end == other.end }
}
impl<'id, P, Q> vstd::std_specs::cmp::PartialOrdSpecImpl<Index<'id, Q>> for Index<'id, P> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Index<'id, Q>) -> Option<Ordering> { Some(vx_ord(self.index as int, other.index as int)) }
}
impl<'id, P, Q> vstd::std_specs::cmp::PartialOrdSpecImpl<Range<'id, Q>> for Range<'id, P> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Range<'id, Q>) -> Option<Ordering> { Some(vx_ord2((self.start, self.end), (other.start, other.end))) }
}
impl<'id, P> vstd::std_specs::cmp::OrdSpecImpl for Index<'id, P> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { vx_ord(self.index as int, other.index as int) }
}
impl<'id, P> vstd::std_specs::cmp::OrdSpecImpl for Range<'id, P> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { vx_ord2((self.start, self.end), (other.start, other.end)) }
}
@@ fn PartialEq<Index<_>> for Index<_>::eq
@@ fn PartialEq<Range<_>> for Range<_>::eq
@@ fn PartialOrd<Index<_>> for Index<_>::partial_cmp
@@ fn PartialOrd<Index<_>> for Index<_>::lt
@@ fn Ord for Index<_>::cmp
@@ fn PartialOrd<Range<_>> for Range<_>::partial_cmp
@body
    broadcast use grp_pair;
@@ fn PartialOrd<Range<_>> for Range<_>::lt
@body
    broadcast use grp_pair;
@@ fn Ord for Range<_>::cmp
@body
    broadcast use grp_pair;
## Hashing: what a hash function feeds to a hasher is a relation between the hasher's states
@@ modend indexing
/// h1 is what a hasher may be after hashing the integer x in state h0 (std)
pub uninterp spec fn vx_hashed<H>(x: usize, h0: H, h1: H) -> bool;
pub open spec fn vx_hashed2<H>(x: usize, y: usize, h0: H, h2: H) -> bool { exists|h1: H| #[trigger] vx_hashed::<H>(x, h0, h1) && vx_hashed::<H>(y, h1, h2) }
pub uninterp spec fn vx_hashed_as<T, H>(x: T, h0: H, h1: H) -> bool;
pub assume_specification<H: core::hash::Hasher> [ <usize as core::hash::Hash>::hash ] (x: &usize, h: &mut H)
    ensures vx_hashed::<H>(*x, *old(h), *final(h));
pub assume_specification<T: core::hash::Hash, B: core::hash::Hash, H: core::hash::Hasher> [ <(T, B) as core::hash::Hash>::hash ] (x: &(T, B), h: &mut H)
    ensures vx_hashed_as::<(T, B), H>(*x, *old(h), *final(h));
/// a pair is hashed by hashing its parts in turn (std)
pub broadcast axiom fn ax_pair_hash<H>(x: (usize, usize), h0: H, h1: H)
    ensures #[trigger] vx_hashed_as::<(usize, usize), H>(x, h0, h1) == vx_hashed2(x.0, x.1, h0, h1);
/// the hash of a range is that of its bounds, or of another function of them
pub open spec fn vx_hash_range<H>(s: usize, e: usize, h0: H, h1: H) -> bool {
    vx_hashed2(s, e, h0, h1) || vx_hashed2(e, s, h0, h1) || vx_hashed2(s, (e - s) as usize, h0, h1) || vx_hashed(s, h0, h1) || vx_hashed(e, h0, h1)
}
@@ fn Hash for Index<_>::hash
@spec
    ensures vx_hashed::<H>(self.index, *old(h), *final(h)),
@@ fn Hash for Range<_>::hash
@spec
    ensures vx_hash_range::<H>(self.start, self.end, *old(h), *final(h)),
@body
proof { broadcast use ax_pair_hash; }
