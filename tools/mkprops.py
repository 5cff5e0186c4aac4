#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Vetting accepts exactly the in-bounds indices and ranges",
"Vetting an integer or an integer range against a container succeeds exactly when it is in bounds (index below the length; range start at most its end, end at most the length) and then yields precisely that index or range; asking a range whether it contains an absolute index succeeds exactly for start <= index < end. The full range, the empty range, the length, emptiness and the non-emptiness test of a range report exactly the container's length and the range's extent, for every storage backend.",
["inputs"],"every container length, every candidate integer / integer pair (including values near the top of the integer range and reversed ranges), every backend",
"Tests vet a handful of small indices on 5-10 element slices; boundary and huge values, reversed ranges and all lengths are a 3-word input space that sampling cannot cover.",
["src/container.rs","src/container_traits.rs","src/indexing.rs"],
[("vet / vet_range / range / empty_range / len","src/container.rs Container"),("contains / nonempty / is_empty / len","src/indexing.rs Range"),("base_len","src/container_traits.rs Trustworthy impls")],
observe=["integer(), start(), end(), as_range() of the result"])

p("C02","Trusted particles are in bounds and non-emptiness proofs are true",
"Every index or range obtainable from a container through the safe operations lies inside that container, and whenever its type says it is non-empty or dereferenceable it really denotes at least one existing element; this holds for the result of every operation applied to arguments for which it already holds. Only an operation that can guarantee an element carries the proof marker over to its result: edge positions (past the end, after an index, frontiers, remainders that may be empty) never carry it.",
["inputs","histories"],"every sequence of safe index/range operations on every container length, both proof markers",
"It is an invariant over all operation histories; tests exercise individual calls with known-good small values, and a wrong marker only shows when an empty range meets an unchecked access.",
["src/container.rs","src/indexing.rs","src/lib.rs","src/proof.rs"],
[("private constructors Index::new, Range::from/from_ne/from_any","src/lib.rs"),("ProofAdd::Sum","src/proof.rs"),("return types of Range/Container methods","src/indexing.rs, src/container.rs")],
state=[("Index.index","absolute offset","src/lib.rs"),("Range.start/end","half-open interval","src/lib.rs")])

p("C03","Splitting and locating inside ranges is exact",
"Every way of cutting a range or container (in half, at a relative offset, at an index, after an index, around a range, before/after an index, one-sided ranges, frontiers, tail, init) yields pieces that are adjacent, in order, and together with the cut-out part cover exactly the original, at exactly the documented cut point; halving puts floor(len/2) elements first, and cutting past the end clamps and reports it. The first, last, lower-middle, upper-middle and past-the-end positions of a range are exactly start, end-1, start+(len-1)/2, start+len/2 and end.",
["inputs"],"every range of every container, every cut offset or index, both proof markers",
"Tests look at a few ranges over 6-element slices; off-by-one cuts for particular parities or extreme offsets are not sampled.",
["src/indexing.rs","src/container.rs"],
[("split_in_half, split_at, frontiers, tail, init, first, last, lower_middle, upper_middle, past_the_end","src/indexing.rs"),("split_at, split_after, split_around, before, after, range_of","src/container.rs")])

p("C04","Joining ranges yields exactly the union or cover",
"Joining two ranges succeeds exactly when the first ends where the second starts and then spans from the first's start to the second's end; the covering joins yield the extension of the first range to the other's end, respectively the smallest range that contains both. The proof of non-emptiness of the result is the documented combination: joined and both-sided cover are non-empty when either input is, the one-sided cover only when the first is.",
["inputs"],"every pair of ranges of a container (adjacent, overlapping, nested, reversed order, empty), all four proof-marker combinations",
"Two compile-fail cases and three unit cases exist; overlapping, nested or reversed pairs with each marker combination are not covered.",
["src/indexing.rs","src/proof.rs"],
[("join, join_cover, join_cover_both","src/indexing.rs"),("ProofAdd impls","src/proof.rs")])

p("C05","Stepping moves exactly as requested or reports and changes nothing",
"Stepping an index forward, backward or by an offset, and shrinking a non-empty range from the front or back by one or by an offset, moves by exactly that amount and reports success precisely when the result is still in bounds (respectively still non-empty); otherwise it reports failure and leaves the index or range unchanged. Shifting a range by an offset moves both ends by that offset, clamped to the limit of the container or enclosing range; no offset, however large, wraps around.",
["inputs"],"every index/range position in every container length, every offset up to the maximum integer",
"Tests only advance by one through tiny ranges; forward_by, backward, advance_by and forward_range_by are untested and wrap-around needs offsets near the integer maximum.",
["src/container.rs","src/indexing.rs"],
[("forward, forward_by, backward, forward_range_by","src/container.rs"),("advance, advance_, advance_by, advance_back, forward_by, forward_range_by","src/indexing.rs")])

p("C06","Access through trusted indices reaches exactly the right elements",
"Indexing a container by a trusted index, range, one-sided index range or the full range yields exactly the element or contiguous elements at those absolute positions of the underlying storage, shared or mutable; writing through a mutable access changes exactly those positions and nothing else. All storage backends (slice, vector, shared and mutable references to them) agree on length, addresses and elements, and never read outside the storage.",
["inputs"],"every container length and content, every valid index/range, every backend, every element type",
"Accesses are unchecked raw-pointer code: tests see a few slices of integers; a displaced or mis-sized access for other positions, backends or element sizes is undefined behaviour that tests may not notice.",
["src/container.rs","src/container_traits.rs"],
[("ops::Index / ops::IndexMut impls","src/container.rs"),("Contiguous(Mut), GetUnchecked(Mut) impls","src/container_traits.rs")])

p("C07","Iterating a range yields each index once, in order, from both ends",
"Iterating a range (of indices, or of pointers into the elements) yields every position of the range exactly once in increasing order (from the back: decreasing), never one outside it, in any interleaving of front and back steps, and then stays exhausted. At each moment the iterator's remaining range is exactly the positions not yet yielded.",
["inputs","histories"],"every range, every interleaving of front and back steps",
"Only forward and fully reversed loops over small ranges are tested; mixed-end consumption is not.",
["src/indexing.rs","src/pointer.rs"],[("RangeIter next/next_back/into_range, Range::into_iter","src/indexing.rs"),("PRangeIter next/next_back, PRange::into_iter","src/pointer.rs")])

p("C08","Subdividing yields n even, adjacent, non-empty parts that cover the range",
"Dividing a range in n >= 1 parts, with n at most its length, yields exactly n non-empty, adjacent, in-order ranges that together cover exactly the original range and whose lengths differ by at most one; with n larger than the length it yields nothing. Every part lies within the range and iteration then stays exhausted.",
["inputs"],"every range and every n >= 1",
"Three fixed (length, n) pairs are tested; the rounding accumulator must be right for every pair.",
["src/indexing.rs"],[("Frac::next_interval, FracStep::new/next, Subdivide::next, Range::subdivide","src/indexing.rs")])

p("C09","Growing a container keeps indices valid and places the element exactly",
"Pushing an element appends it, grows the length by one, keeps all other elements, and returns a valid index of the new element; inserting at an index (or at the end edge) places the element exactly there, shifts the later ones up by one and keeps the earlier ones. All previously obtained indices and ranges stay in bounds.",
["inputs","histories"],"every vector content, every insertion index including the end, every sequence of pushes and inserts",
"A single example vector is pushed to; insertion is hardly exercised.",
["src/container.rs","src/container_traits.rs"],[("push, insert","src/container.rs"),("Pushable impls","src/container_traits.rs")])

p("C10","Twin containers are admitted exactly for equal lengths",
"A twin container is created exactly when the second array has the same length as the first, and is refused otherwise; consequently every index or range of the original is in bounds for the twin and denotes the same position there. A clone of a container has the same length and elements.",
["inputs"],"every pair of lengths and contents",
"One equal-length example is tested; the refusal path is not.",
["src/container.rs"],[("make_twin, Clone","src/container.rs")])

p("C11","Predicate scans return exactly the maximal run",
"A scan by predicate, forward or backward, from an index or over a range, with indices or pointers, returns exactly the longest run of consecutive elements next to its starting point that all satisfy the predicate (including the starting element itself where documented), and range scans split the range precisely at the first failing element. The predicate is asked in scan order, about the next element only, and never again after its first refusal.",
["inputs"],"every slice content, every start/range, every predicate",
"Two scans over one five-element slice are tested; run lengths at the borders, empty runs and the backward and pointer versions are not.",
["src/container.rs","src/pointer.rs"],[("scan_from, scan_from_rev, scan_range","src/container.rs"),("scan_tail_, scan_pointer_range, scan_pointer_range_rev","src/pointer.rs")])

p("C12","In-place moves permute exactly the named positions",
"Swapping two indices exchanges exactly these two elements (no change if equal); rotating a range by one up (down) moves its last (first) element to its other end and shifts the others by one, and does nothing for empty or single-element ranges; everything outside stays untouched and no element is lost or duplicated. Indexing by two ranges succeeds exactly when the first ends no later than the second starts and yields exactly those two disjoint parts, and the raw zip visits exactly the first min(len) corresponding element pairs in order.",
["inputs"],"every container content, every pair of indices, every range",
"These use raw-pointer copies; tests reach them only through small sorts of integers, where a wrong shift of one border element can go unnoticed.",
["src/container.rs","src/pointer.rs"],[("swap, rotate1_up, rotate1_down, index_twice, zip_mut_raw","src/container.rs"),("swap_ptr, rotate1_prange","src/pointer.rs")])

p("C13","Sorting functions sort",
"Every sorting function of the crate (quicksorts over index ranges, pointer ranges and bounds-checked slices; insertion sorts over indices, ranges, pointers, raw pointers and by lower bound) leaves the slice in non-decreasing order with respect to the element order or the supplied strict ordering, and a permutation of its input, whenever it returns and the ordering is consistent.",
["inputs"],"every slice of every length and content (duplicates, all equal, sorted, reversed, around the insertion-sort cutoff), every consistent order",
"Random tests sort short slices of small integers and mostly stay below or near the insertion-sort cutoff; partition border cases depend on specific duplicate patterns.",
["src/algorithms.rs"],[("quicksort_range, quicksort_prange, quicksort_bounds","src/algorithms.rs"),("insertion_sort_*","src/algorithms.rs")])

p("C14","Insertion sorts are stable and the paired sort moves in lock step",
"The linear-scan insertion sorts (index, range, pointer and raw-pointer versions) keep elements that compare equal in their original order. The paired sort applies to the second slice exactly the permutation it applies to the first, so every pair stays together, and it sorts the first stably.",
["inputs"],"every slice content with ties, every consistent strict ordering, every equal-length pair of slices",
"One four-element paired example exists; stability is not tested at all because integers with equal keys are indistinguishable.",
["src/algorithms.rs"],[("insertion_sort_indexes, insertion_sort2_indexes, insertion_sort_ranges, insertion_sort_pointerindex, insertion_sort_rust","src/algorithms.rs")])

p("C15","Heapify establishes the min-heap order",
"After heapify every element is at most each of its children (positions 2k+1 and 2k+2), for every pair inside the slice, and the slice is a permutation of its input.",
["inputs"],"every slice of every length and content under a total order",
"A fixed example and a random test over short vectors; a missed last child or a wrong sift path needs specific shapes.",
["src/algorithms.rs"],[("heapify","src/algorithms.rs")])

p("C16","Searches return exactly the boundary or a matching position",
"Each lower-bound search over data partitioned by its predicate (a sorted slice) returns exactly the position before which all elements satisfy 'less' and from which on none does. Each binary search over data sorted with respect to its comparison returns a position whose element compares equal if there is one, and otherwise exactly the insertion point; results never lie outside the slice or the searched sub-range, whatever the comparison answers.",
["inputs"],"every sorted slice of every length (duplicates, empty, single, needles below, inside, above), every variant (index, pointer range, pointer slice, raw pointer)",
"Tests search two fixed arrays; the boundary cases of each length parity, with duplicates and for every variant, are not enumerated.",
["src/algorithms.rs"],[("lower_bound, lower_bound_prange(_), lower_bound_pslice(_), lower_bound_raw_ptr","src/algorithms.rs"),("binary_search, binary_search_by, binary_search_by_prange(_), binary_search_by_pslice(_)","src/algorithms.rs")])

p("C17","Internal merge yields the sorted merge and returns the buffer's elements",
"Merging a slice whose two parts are each sorted, with a buffer at least as long as the left part, leaves the slice sorted and containing exactly its original elements, and the buffer with exactly the elements it had before (in some order), unchanged beyond the used prefix. If the split point exceeds the slice or the buffer it reports an error and changes nothing.",
["inputs"],"every non-empty slice content, every split point, every buffer length and content, both variants",
"One example merge into a zeroed buffer is tested; the element accounting is visible only with distinguishable buffer contents and particular exhaustion orders.",
["src/algorithms.rs"],[("merge_internal_indices, merge_internal_ranges, block_swap2","src/algorithms.rs")])

p("C18","Comparing indices and ranges is by position only and self-consistent",
"Two indices (ranges), the pointer-based ones included, are equal exactly when their position (start and end) is equal, whatever their proof markers; ordering of indices is by position and of ranges lexicographic by (start, end); all comparison operators, total comparison and hashing agree with each other.",
["inputs"],"every pair of indices / ranges, every marker combination, every operator",
"Only '<' style comparisons on a few ranges are tested, so an override inconsistent with the others goes unnoticed.",
["src/indexing.rs","src/pointer.rs"],[("PartialEq/Eq/PartialOrd/Ord/Hash impls","src/indexing.rs"),("PartialEq impls of PIndex/PRange/PSlice","src/pointer.rs")])

p("C19","Pointer ranges mirror index ranges exactly",
"For element types of non-zero size, every pointer-based index, range and slice operation (length, emptiness, halves, first/last/middle/end, tail, init, advancing at both ends, splitting at or around pointers, conversions between representations, distance, iteration from both ends, element and slice access) denotes exactly the positions that the corresponding index-based operation denotes, and proof markers are only carried by particles that really have an element.",
["inputs","histories"],"every container length and content, every position/sub-range, every non-zero element size, both proof markers",
"The pointer API is tested only through a few algorithms on integer slices; displacement errors for other sizes and border positions are undefined behaviour rather than test failures.",
["src/pointer.rs","src/pointer_ext.rs"],[("PIndex, PRange, PSlice, PRangeIter, PointerRange","src/pointer.rs"),("inc/post_inc/dec/pre_dec","src/pointer_ext.rs")])

p("C20","Lock-step copying and splitting by pointer touch exactly the paired elements",
"Zipping two pointer ranges visits exactly the first min(len1, len2) pairs of corresponding elements in order; copying writes exactly the common prefix of the destination from the source and nothing else, the dot product is the sum over exactly that prefix, and splitting a container at a pointer hands out exactly the two disjoint complementary parts, and only to holders of mutable access.",
["inputs"],"every pair of slice lengths and contents, every split position",
"Only benches use these functions; unequal lengths and border splits are untested.",
["src/pointer.rs","src/algorithms.rs"],[("zip, split_container_at_pointer","src/pointer.rs"),("copy, copy_prange, zip_dot_i32, zip_dot_i32_prange","src/algorithms.rs")])

p("C21","No element is lost or duplicated, whatever the comparison does",
"Every sort, heapify and merge leaves its slice(s) a permutation of the original contents even if the comparison is inconsistent, stateful or arbitrary, and at every moment the comparison is called (so also if it panics) all elements are present exactly once. No comparison behaviour makes them access out of bounds.",
["inputs","histories"],"every slice content and every comparison behaviour, including inconsistent or panicking ones",
"Tests only use the lawful integer order; inconsistent orders and panics at each comparison are not explored.",
["src/algorithms.rs","src/container.rs"],[("quicksort_*, insertion_sort_*, heapify, merge_internal_*","src/algorithms.rs"),("swap, rotate1_up, rotate1_prange","src/container.rs, src/pointer.rs")])

p("C22","Brands keep containers apart",
"A program that uses an index, range or pointer of one container with a different container, or lets one escape its scope, does not compile.",
["programs"],"every client program",
"The compile-fail tests are a handful of example programs.",
["src/lib.rs","src/container.rs"],[("invariant lifetime brand Id<'id>, scope's higher-ranked closure","src/lib.rs, src/container.rs")])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        assert x["statement"].count(". ")<=2, x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
