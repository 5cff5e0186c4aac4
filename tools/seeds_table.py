SEEDS = []
def s(id, property, edits, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
A, I, C, P, T, L = "src/algorithms.rs", "src/indexing.rs", "src/container.rs", "src/pointer.rs", "src/container_traits.rs", "src/lib.rs"

s("c17-split-at-end", "C17", [(A, """            if right_end - left_end == 0 {
                return;
            }
            block_swap2(&mut data[r], &mut buffer[rb]);
""", """            block_swap2(&mut data[r], &mut buffer[rb]);
            if right_end - left_end == 0 {
                return;
            }
""")], "merge_internal_indices with the split at the very end of the data and a buffer whose contents differ from the data",
"the early return for an empty right part happens after the left part has been moved to the buffer, so data and buffer stay exchanged", """
use indexing::algorithms::merge_internal_indices;
fn main() {
    let mut d = [1, 2, 3]; let mut b = [7, 8, 9, 10];
    assert!(merge_internal_indices(&mut d, 3, &mut b).is_ok());
    assert_eq!(d, [1, 2, 3]); assert_eq!(b, [7, 8, 9, 10]);
    let mut d = [1, 4, 2, 3]; let mut b = [7, 8, 9, 10];
    assert!(merge_internal_indices(&mut d, 2, &mut b).is_ok());
    assert_eq!(d, [1, 2, 3, 4]);
}
""")

s("c14-unstable", "C14", [(A, ("let jtail = v.scan_from_rev(i.first(), |j_elt| less_than(&v[i.first()], j_elt));", 1),
 "let jtail = v.scan_from_rev(i.first(), |j_elt| !less_than(j_elt, &v[i.first()]));")],
"elements that compare equal but are distinguishable", "insertion_sort_ranges moves an element before those equal to it: sorted but not stable", """
use indexing::algorithms::insertion_sort_ranges;
fn main() {
    let mut v = [(1, 'a'), (0, 'b'), (1, 'c'), (0, 'd')];
    insertion_sort_ranges(&mut v, |x, y| x.0 < y.0);
    assert_eq!(v, [(0, 'b'), (0, 'd'), (1, 'a'), (1, 'c')]);
}
""")

s("c21-hole", "C21", [(A, """            while j > 0 && less_than(&*read_ptr, &*buf_v.offset(j - 1)) {
                j -= 1;
            }
""", """            let hole = mem::ManuallyDrop::new(ptr::read(read_ptr));
            while j > 0 && less_than(&hole, &*buf_v.offset(j - 1)) {
                ptr::copy_nonoverlapping(buf_v.offset(j - 1), buf_v.offset(j), 1);
                j -= 1;
            }
            ptr::copy_nonoverlapping(&*hole, buf_v.offset(j), 1);
            if mem::needs_drop::<T>() || true { continue; }
""")], "a comparison that panics after at least one element has been moved",
"elements are shifted while the comparison still runs, so a panicking comparison leaves one element duplicated and one lost (double drop)", """
use indexing::algorithms::insertion_sort_rust;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v: Vec<std::mem::ManuallyDrop<String>> = ["c", "d", "b", "a"].iter().map(|s| std::mem::ManuallyDrop::new(s.to_string())).collect();
    let mut n = 0;
    let _ = catch_unwind(AssertUnwindSafe(|| insertion_sort_rust(&mut v, |a, b| { n += 1; if n == 3 { panic!() } **a < **b })));
    let mut w: Vec<String> = v.iter().map(|s| (**s).clone()).collect();
    w.sort();
    assert_eq!(w, ["a", "b", "c", "d"]);
}
""")

s("c10-longer-twin", "C10", [(C, "if self.len() != arr.base_len() {", "if self.len() > arr.base_len() {")],
"a twin array longer than the original", "make_twin accepts an array of a different (greater) length", """
use indexing::scope;
fn main() {
    let a = [1, 2, 3]; let b = [1, 2, 3, 4]; let c = [4, 5, 6]; let d = [1, 2];
    scope(&a[..], |v| {
        assert!(v.make_twin(&b[..]).is_err());
        assert!(v.make_twin(&d[..]).is_err());
        assert!(v.make_twin(&c[..]).is_ok());
    });
}
""")

s("c20-zip-first-len", "C20", [(P, "let len = min(r1.len(), r2.len());", "let len = r1.len();")],
"the first range longer than the second", "zip walks past the end of the second container when the first range is longer", """
use indexing::algorithms::{copy_prange, zip_dot_i32_prange};
fn main() {
    let mem = [1, 2, 3, 4, 5, 6, 7, 8];
    let mut out = [0; 8];
    copy_prange(&mem[..6], &mut out[..3]);
    assert_eq!(out, [1, 2, 3, 0, 0, 0, 0, 0]);
    assert_eq!(zip_dot_i32_prange(&mem[..6], &mem[..2]), 5);
}
""")

s("c19-pslice-init", "C19", [(P, """            // always in bounds because the range is nonempty
            if self.len() > 1 {
                self.start.inc();
                self.len -= 1;
                true
            } else {
                false
            }
""", """            // always in bounds because the range is nonempty
            self.len -= 1;
            if self.len() > 0 {
                self.start.inc();
                true
            } else {
                false
            }
""")], "advancing a pointer slice that has exactly one element left", "a failed PSlice::advance leaves the non-empty slice with length 0", """
use indexing::scope;
fn main() {
    let a = [10, 20, 30];
    scope(&a[..], |v| {
        let mut s = v.pointer_slice().nonempty().unwrap();
        let mut n = 1;
        while s.advance() { n += 1; }
        assert_eq!(n, 3);
        assert_eq!(s.len(), 1);
        assert_eq!(v[s.first()], 30);
        assert_eq!(v[s.last()], 30);
    });
}
""")

s("c05-advance-by", "C05", [(I, "next.start = next.start.saturating_add(offset);", "next.start = next.start.wrapping_add(offset);")],
"an offset so large that start + offset wraps around, on a range not starting at 0", "advance_by moves backwards out of the range instead of failing", """
use indexing::scope;
fn main() {
    let a = [0; 6];
    scope(&a[..], |v| {
        let mut r = v.vet_range(3..6).unwrap().nonempty().unwrap();
        assert!(r.advance_by(1));
        assert!(!r.advance_by(usize::max_value() - 1));
        assert_eq!((r.start(), r.end()), (4, 6));
    });
}
""")

s("c04-join-cover-both", "C04", [(I, """        let start = cmp::min(self.start, other.start);
        let end = cmp::max(self.end, other.end);""", """        let (start, end) = if self.start <= other.start {
            (self.start, other.end)
        } else {
            (other.start, self.end)
        };""")], "one of the ranges strictly inside the other", "join_cover_both is too short when the range that starts first also ends last", """
use indexing::scope;
fn main() {
    let a = [0; 8];
    scope(&a[..], |v| {
        let x = v.vet_range(1..7).unwrap(); let y = v.vet_range(2..4).unwrap();
        let j = x.join_cover_both(y); assert_eq!((j.start(), j.end()), (1, 7));
        let j = y.join_cover_both(x); assert_eq!((j.start(), j.end()), (1, 7));
        let y = v.vet_range(3..8).unwrap();
        let j = x.join_cover_both(y); assert_eq!((j.start(), j.end()), (1, 8));
    });
}
""")

s("c01-vet-reversed", "C01", [(C, "if r.start <= r.end && r.end <= self.len() {", "if r.start <= self.len() && r.end <= self.len() {")],
"a reversed range (start greater than end), both in bounds", "vet_range accepts reversed ranges", """
use indexing::scope;
fn main() {
    let a = [0; 5];
    scope(&a[..], |v| {
        assert!(v.vet_range(3..2).is_err());
        assert!(v.vet_range(2..3).is_ok());
        assert!(v.vet_range(5..5).is_ok());
        assert!(v.vet_range(5..6).is_err());
    });
}
""")

s("c07-iter-back", "C07", [(I, """        if self.start < self.end {
            self.end -= 1;
            unsafe {
                Some(Index::new(self.end))""", """        if self.start <= self.end && self.end > 0 {
            self.end -= 1;
            unsafe {
                Some(Index::new(self.end))""")], "a range that does not start at 0, iterated from the back past exhaustion (or from both ends)",
"next_back yields an index before the range once it is exhausted", """
use indexing::scope;
fn main() {
    let a = [0; 6];
    scope(&a[..], |v| {
        let mut it = v.vet_range(2..5).unwrap().into_iter();
        assert_eq!(it.next_back().unwrap().integer(), 4);
        assert_eq!(it.next().unwrap().integer(), 2);
        assert_eq!(it.next_back().unwrap().integer(), 3);
        assert!(it.next_back().is_none());
        assert!(it.next().is_none());
    });
}
""")


s("c08-exact", "C08", [(I, """        if decimal_step == 0 {
            end = start;
        }""", """        if len <= divisor {
            end = start;
        }""")], "as many parts as the range has elements (n equal to the length)", "subdividing a range of length n into n parts yields nothing", """
use indexing::scope;
fn main() {
    for len in 1..40usize { for n in 1..len + 1 {
        let a = vec![0u8; len];
        scope(&a[..], |v| {
            let p: Vec<_> = v.range().subdivide(n).collect();
            assert_eq!(p.len(), n);
            let mut at = 0;
            for r in &p { assert_eq!(r.start(), at); assert!(r.len() > 0); at = r.end(); }
            assert_eq!(at, len);
            let mx = p.iter().map(|r| r.len()).max().unwrap(); let mn = p.iter().map(|r| r.len()).min().unwrap();
            assert!(mx - mn <= 1);
        });
    } }
}
""")

s("c11-scan-rev", "C11", [(P, """                if !f(&*ptr.offset(-1)) {
                    break;
                }
                ptr.dec();""", """                ptr.dec();
                if !f(&*ptr) {
                    break;
                }""")], "a backward pointer scan that stops before the start of the range", "scan_pointer_range_rev includes the first element that failed the predicate", """
use indexing::scope;
fn main() {
    let a = [5, 1, 7, 8, 9];
    scope(&a[..], |v| {
        let (x, y) = v.scan_pointer_range_rev(v.pointer_range(), |x| *x > 6);
        assert_eq!(&v[y], &[7, 8, 9]); assert_eq!(&v[x], &[5, 1]);
        let (x, y) = v.scan_pointer_range_rev(v.pointer_range(), |x| *x > 0);
        assert_eq!(y.len(), 5); assert_eq!(x.len(), 0);
    });
}
""")

s("c12-rotate-down", "C12", [(C, """            if r.first() != r.last() {
                unsafe {
                    let last_ptr = &mut self""", """            if r.len() > 2 {
                unsafe {
                    let last_ptr = &mut self""")],
"rotating a range of exactly two elements down", "rotate1_down does nothing for a two-element range", """
use indexing::scope;
fn main() {
    for n in 1..9usize {
        let mut a: Vec<usize> = (0..n + 2).collect();
        scope(&mut a[..], |mut v| {
            let r = v.vet_range(1..n + 1).unwrap();
            v.rotate1_down(r);
        });
        let mut e: Vec<usize> = vec![0]; e.extend(2..n + 1); e.push(1); e.push(n + 1);
        assert_eq!(a, e);
    }
}
""")

s("c16-partial-order", "C16", [(A, ("if v[b.first()] < *elt {", 1), "if !(v[b.first()] >= *elt) {")],
"a partially ordered element type with elements incomparable to the searched one (floats with NaN after all smaller elements)", "lower_bound counts incomparable elements as smaller", """
use indexing::algorithms::{lower_bound, lower_bound_prange, lower_bound_raw_ptr};
fn main() {
    let n = std::f64::NAN;
    for v in &[vec![1., 2., n], vec![n, n, n], vec![1., n, n, 7.], vec![]] {
        let e = v.iter().take_while(|x| **x < 3.).count();
        assert_eq!(lower_bound(&v, &3.), e);
        assert_eq!(lower_bound_prange(&v, &3.), e);
        assert_eq!(lower_bound_raw_ptr(&v, &3.), e);
    }
}
""")

s("c18-range-partial", "C18", [(I, """        Some(Ord::cmp(&self.order_key(), &rhs.order_key()))
    }

    fn lt(&self, rhs: &Range<'id, Q>)""", """        Some(Ord::cmp(&self.start, &rhs.start))
    }

    fn lt(&self, rhs: &Range<'id, Q>)""")],
"two ranges with the same start and different ends compared with <=, >, >= or partial_cmp", "partial_cmp on ranges disagrees with cmp, == and < for ranges with the same start", """
use indexing::scope;
use std::cmp::Ordering;
fn main() {
    let a = [0; 6];
    scope(&a[..], |v| {
        for s in 0..6 { for e in s..6 { for s2 in 0..6 { for e2 in s2..6 {
            let x = v.vet_range(s..e).unwrap(); let y = v.vet_range(s2..e2).unwrap();
            assert_eq!(x < y, (s, e) < (s2, e2));
            assert_eq!(x.cmp(&y), (s, e).cmp(&(s2, e2)));
            assert_eq!(x < y, x.partial_cmp(&y) == Some(Ordering::Less));
        } } } }
    });
}
""")

s("c09-swap-insert", "C09", [("src/container_traits.rs", "self.insert(index, item)", """self.push(item);
            let end = self.len() - 1;
            self.swap(index, end)""")], "inserting with at least two elements after the insertion point", "insert puts the displaced element at the end instead of shifting the later elements by one", """
use indexing::scope;
fn main() {
    for n in 0..6usize { for k in 0..n + 1 {
        let mut a: Vec<usize> = (0..n).collect();
        scope(&mut a, |v| {
            let mut v = v.only_index();
            let r = v.vet_range(k..n).unwrap();
            v.insert(r.first(), 100);
        });
        let mut e: Vec<usize> = (0..n).collect(); e.insert(k, 100);
        assert_eq!(a, e);
    } }
}
""")

s("c02-lower-middle", "C02", [(I, "let mid = (self.len() - 1) / 2 + self.start;", "let mid = (self.len() - 1) / 2 + self.start + (self.len() == 1 && self.start > 0) as usize;")],
"a range of length one that does not start at zero", "the lower middle of a one-element range is the index one past it, which is typed dereferenceable; at the end of the container it reads out of bounds", """
use indexing::scope;
fn main() {
    let d = [1, 2, 3, 4];
    scope(&d[..], |v| {
        for s in 0..4 {
            let r = v.vet_range(s..s + 1).unwrap().nonempty().unwrap();
            assert_eq!(r.lower_middle().integer(), s);
        }
        let r = v.vet_range(1..4).unwrap().nonempty().unwrap();
        assert_eq!(r.lower_middle().integer(), 2);
    });
}
""")

s("c02-proof-sum", "C02", [("src/proof.rs", "impl<Q> ProofAdd for (Unknown, Q) { type Sum = Q; }", "impl ProofAdd for (Unknown, NonEmpty) { type Sum = NonEmpty; }\nimpl ProofAdd for (Unknown, Unknown) { type Sum = NonEmpty; }")],
"joining two ranges of unknown emptiness that are both empty", "the type of the join of two possibly empty ranges says that it is not empty, so that an empty range becomes dereferenceable", """
use indexing::scope;
use indexing::{Range, Unknown, NonEmpty};
trait Claims { fn claims_nonempty(&self) -> bool; fn n(&self) -> usize; }
impl<'id> Claims for Range<'id, Unknown> { fn claims_nonempty(&self) -> bool { false } fn n(&self) -> usize { self.len() } }
impl<'id> Claims for Range<'id, NonEmpty> { fn claims_nonempty(&self) -> bool { true } fn n(&self) -> usize { self.len() } }
fn ck<C: Claims>(c: C, n: usize) { assert_eq!(c.n(), n); assert!(!(c.claims_nonempty() && n == 0), "an empty range is typed NonEmpty"); }
fn main() {
    let d = [1, 2, 3, 4];
    scope(&d[..], |v| {
        let (a, b) = v.empty_range().frontiers();
        ck(a.join(b).unwrap(), 0);
        ck(v.range().join(b).map(|_| ()).map_or(a, |_| a), 0);
        ck(v.range(), 4);
    });
}
""")

s("c03-split-at-flag", "C03", [(I, "             index <= self.len())", "             index <= self.len() - (self.start > 0 && self.end > self.start) as usize)")],
"split_at at exactly the length of a non-empty range that does not start at zero", "the flag says the cut was past the end although the cut is exactly at the end", """
use indexing::scope;
fn main() {
    let d = [1, 2, 3, 4];
    scope(&d[..], |v| {
        for s in 0..5 { for e in s..5 { for k in 0..7 {
            let r = v.vet_range(s..e).unwrap();
            let (a, b, ok) = r.split_at(k);
            assert_eq!(ok, k <= e - s);
            assert_eq!((a.start(), a.end(), b.start(), b.end()), (s, s + k.min(e - s), s + k.min(e - s), e));
        } } }
    });
}
""")

s("c06-from-mut-tail", "C06", [(C, """                self.arr.begin_mut().offset(i as isize),
                self.len() - i)""", """                self.arr.begin_mut().offset(i as isize),
                self.range().end().saturating_sub(i).max(1) - (i + 1 > self.len()) as usize + (i > 0 && i + 1 == self.len()) as usize)""")],
"&mut v[i..] with i the last index of a container of at least two elements", "the mutable tail slice from the last index is one element too long (out of bounds)", """
use indexing::scope;
fn main() {
    for n in 0..5usize {
        let mut d: Vec<usize> = (0..n).collect();
        scope(&mut d[..], |mut v| {
            for i in v.range() {
                let k = n - i.integer();
                assert_eq!(v[i..].len(), k);
                let p = (&mut v[i..]).len();
                assert_eq!(p, k);
            }
        });
    }
}
""")

s("c06-vec-range", "C06", [("src/container_traits.rs", """    unsafe impl<T> ContiguousMut for Vec<T> {
        fn begin_mut(&mut self) -> *mut Self::Item { (**self).begin_mut() }
        fn end_mut(&mut self) -> *mut Self::Item { (**self).end_mut() }""", """    unsafe impl<T> ContiguousMut for Vec<T> {
        fn begin_mut(&mut self) -> *mut Self::Item { (**self).begin_mut() }
        fn end_mut(&mut self) -> *mut Self::Item {
            let spare = (self.capacity() > self.len() && self.len() > 2) as usize;
            unsafe { self.as_mut_ptr().add(self.len() - spare) }
        }""")],
"a Vec of at least three elements with spare capacity, accessed through ContiguousMut::end_mut", "the end of the vector's memory is reported one element early", """
use indexing::container_traits::ContiguousMut;
fn main() {
    for n in 0..6 {
        let mut v: Vec<u32> = Vec::with_capacity(n + 3);
        v.extend(0..n as u32);
        let b = v.begin_mut() as usize; let e = v.end_mut() as usize;
        assert_eq!((e - b) / 4, n);
    }
}
""")

s("c14-twin", "C14", [(A, """            v.rotate1_up(jtail);
            u.rotate1_up(jtail);""", """            if jtail.len() > 1 {
                v.rotate1_up(jtail);
                let (a, b) = jtail.split_in_half();
                match b.nonempty() {
                    Ok(b) if a.len() > 16 => { u.rotate1_up(a); u.rotate1_up(b); }
                    _ => u.rotate1_up(jtail),
                }
            }""")],
"an element that moves by more than 32 positions", "the second container is rotated in two halves, so it no longer moves in lock step", """
use indexing::algorithms::insertion_sort2_indexes;
fn main() {
    for n in [0usize, 1, 2, 5, 33, 34, 35, 60].iter().cloned() {
        let mut v: Vec<usize> = (0..n).rev().collect();
        let mut u: Vec<usize> = (0..n).rev().map(|x| x * 7).collect();
        insertion_sort2_indexes(&mut v, &mut u, |a, b| a < b);
        for i in 0..n { assert_eq!((v[i], u[i]), (i, 7 * i)); }
    }
}
""")

s("c14-ptr-unstable", "C14", [(A, "let jtail = v.scan_tail_(i, |j_elt| less_than(&v[i], j_elt));", "let jtail = v.scan_tail_(i, |j_elt| less_than(&v[i], j_elt) || (i.ptr() == v.pointer_range().past_the_end().ptr().wrapping_sub(1) && !less_than(j_elt, &v[i])));")],
"the last element compares equal to an earlier one", "the pointer insertion sort moves the last element before those equal to it", """
use indexing::algorithms::insertion_sort_pointerindex;
fn main() {
    let mut v = [(1, 'a'), (0, 'b'), (1, 'c'), (0, 'd')];
    insertion_sort_pointerindex(&mut v, |x, y| x.0 < y.0);
    assert_eq!(v, [(0, 'b'), (0, 'd'), (1, 'a'), (1, 'c')]);
}
""")

s("c17-equal-right", "C17", [(A, ("if buffer[i.first()] <= data[j.first()] {", 1), "if buffer[i.first()] < data[j.first()] || i.first() == rb.first() {")],
"a merge whose right part starts with elements smaller than the whole left part", "merge_internal_ranges always takes the first element of the left part first", """
use indexing::algorithms::merge_internal_ranges;
fn main() {
    let mut d = [2, 4, 6, 1, 3, 5]; let mut b = [7, 8, 9];
    assert!(merge_internal_ranges(&mut d, 3, &mut b).is_ok());
    assert_eq!(d, [1, 2, 3, 4, 5, 6]);
    b.sort(); assert_eq!(b, [7, 8, 9]);
}
""")

s("c20-container-range", "C20", [(P, "let r2 = PRange::new(index.idx, pr.end);", "let r2 = PRange::new(if mid == 0 { pr.start.offset((pr.len() > 4) as isize) } else { index.idx }, pr.end);")],
"splitting a container of more than four elements at its first element", "the range handed out for the second container misses its first element", """
use indexing::scope;
use indexing::pointer::zip;
fn main() {
    for n in 1..9usize {
        let mut d: Vec<usize> = (0..n).collect();
        scope(&mut d[..], |mut v| {
            for k in 0..n {
                let p = v.pointer_range().into_iter().nth(k).unwrap();
                v.split_container_at_pointer(p, |a, ra, b, rb| {
                    assert_eq!((a.len(), b.len()), (k, n - k));
                    assert_eq!((ra.len(), rb.len()), (k, n - k));
                    let mut c = 0;
                    zip(rb, &b, b.pointer_range(), &b, |x, y| { assert_eq!(x, y); c += 1; });
                    assert_eq!(c, n - k);
                });
            }
        });
    }
}
""")

s("c21-heap-hole", "C21", [(A, """                // sift down is done if we are already in order
                if v[pos] <= v[child] {
                    break;
                }
                //puts!("mov {:?} => {:?} (value={:?})", pos, child, &v[pos]);
                v.swap(pos, child);
                pos = child;
            }
""", """                // sift down is done if we are already in order
                if *hole <= v[child] {
                    break;
                }
                unsafe {
                    let to: *mut T = &mut v[pos];
                    std::ptr::copy_nonoverlapping(&v[child], to, 1);
                }
                pos = child;
            }
            unsafe {
                std::ptr::copy_nonoverlapping(&*hole, &mut v[pos], 1);
            }
"""), (A, "            let mut pos = i;\n", "            let mut pos = i;\n            let hole = std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&v[pos]) });\n")],
"a comparison that panics while an element is being sifted down", "heapify keeps the sifted element outside the slice without a guard, so a panicking comparison duplicates one element and loses another", """
use indexing::algorithms::heapify;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local!(static N: Cell<usize> = Cell::new(0));
#[derive(Clone, Debug, PartialEq, Eq)]
struct K(u32);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering {
    N.with(|n| { if n.get() == 0 { panic!() } n.set(n.get() - 1); });
    self.0.cmp(&o.0)
} }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for k in 0..60 {
        let mut v: Vec<K> = (0..12).rev().map(K).collect();
        N.with(|n| n.set(k));
        let _ = catch_unwind(AssertUnwindSafe(|| heapify(&mut v)));
        let mut w: Vec<u32> = v.iter().map(|x| x.0).collect(); w.sort();
        assert_eq!(w, (0..12).collect::<Vec<_>>());
    }
}
""")

s("c13-sorted-shortcut", "C13", [(A, """    let (l, m, r) = (0, v.len() / 2, v.len() - 1);""", """    // nothing to do if it is sorted already
    if v.len() > 128 {
        let mut k = 1;
        while k < v.len() && v[k - 1] <= v[k] { k += 2; }
        if k >= v.len() { return; }
    }

    let (l, m, r) = (0, v.len() / 2, v.len() - 1);""")],
"more than 128 elements whose disjoint pairs are all in order although the whole is not", "quicksort_bounds takes such a slice for sorted and returns it unsorted", """
use indexing::algorithms::quicksort_bounds;
fn main() {
    for n in [10usize, 128, 130, 131, 300].iter().cloned() {
        for cut in 0..n {
            let mut v: Vec<usize> = (0..n).map(|k| (k + cut) % n).collect();
            quicksort_bounds(&mut v);
            assert!(v.windows(2).all(|w| w[0] <= w[1]), "{} {}", n, cut);
        }
    }
}
""")

s("c15-wide-child", "C15", [(A, "v.vet(pos.integer() * 2 + 1)", "v.vet((pos.integer() as u16 as usize) * 2 + 1)"),],
"more than 131072 elements, so that a parent's index does not fit into sixteen bits", "the children of a parent far into the slice are computed from a truncated index", """
use indexing::algorithms::heapify;
fn main() {
    for n in [0usize, 5, 140_001].iter().cloned() {
        let mut v: Vec<usize> = (0..n).map(|k| (n - k) * 7919 % 100_003).collect();
        heapify(&mut v);
        for i in 1..n { assert!(v[(i - 1) / 2] <= v[i], "{} {}", n, i); }
    }
}
""")

s("c11-cacheline", "C11", [(C, """        for elt in &self[self.after(index)] {
            if !f(elt) {""", """        for elt in self[self.after(index)].iter().filter(|e| mem::size_of::<T>() != 1 || (*e as *const T as usize) % 64 != 0 || self.len() < 200) {
            if !f(elt) {""")],
"a container of more than 200 one-byte elements whose first failing element lies at an address divisible by 64",
"scan_from skips elements at some addresses, so the scanned range runs past an element that fails the predicate", """
use indexing::scope;
fn main() {
    for fail in 1..600usize {
        let mut v = vec![1u8; 600]; v[fail] = 0;
        let n = scope(&mut v[..], |v| {
            let i = v.range().nonempty().unwrap().first();
            v.scan_from(i, |&x| x == 1).len()
        });
        assert_eq!(n, fail);
    }
}
""")

s("c19-last", "C19", [(P, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();""", """    fn last(self) -> Option<Self::Item> { if self.0.len() > 1 { Some(unsafe { PIndex::inbounds(self.0.end.offset(-2)) }) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();""")],
"the provided iterator method last() on a pointer range iterator", "last() yields the element before the last one (and nothing for one element)", """
use indexing::scope;
use indexing::container::*;
fn main() {
    for n in 1..5usize {
        let mut v: Vec<usize> = (0..n).collect();
        scope(&mut v[..], |v| {
            let r = v.pointer_range();
            let l = r.into_iter().last().expect("a last element");
            assert_eq!(v[l], n - 1);
        });
    }
}
""")

s("c08-last", "C08", [(I, """impl<'id> Iterator for Subdivide<'id> {
    type Item = Range<'id, NonEmpty>;""", """impl<'id> Iterator for Subdivide<'id> {
    type Item = Range<'id, NonEmpty>;
    fn last(mut self) -> Option<Range<'id, NonEmpty>> { let e = self.fs.end; self.fs.next().map(|(i, j)| unsafe { Range::from_ne(if j == e { i } else { e - (j - i) }, e) }) }""")],
"the provided iterator method last() on a subdivision whose parts differ in length", "last() gives a part of the first part's length instead of the last part", """
use indexing::scope;
fn main() {
    for n in 1..40usize { for k in 1..12usize {
        let mut v = vec![0u8; n];
        scope(&mut v[..], |v| {
            let mut l = None;
            for r in v.range().subdivide(k) { l = Some(r); }
            let m = v.range().subdivide(k).last();
            assert_eq!(l.map(|r| (r.start(), r.end())), m.map(|r| (r.start(), r.end())), "{} {}", n, k);
        });
    } }
}
""")

s("c17-probe", "C17", [(A, """            if right_end - left_end == 0 {
                return;
            }""", """            if right_end - left_end == 0 || (left_end > 8 && data[..][left_end - 2] <= data[..][left_end]) {
                return;
            }""")],
"a left part of more than eight elements of which only the last is greater than the first of the right part", "merge_internal_indices takes such data for merged", """
use indexing::algorithms::merge_internal_indices;
fn main() {
    for n in 2..20i32 {
        let mut d: Vec<i32> = (0..n).map(|x| 2 * x).chain(vec![2 * n - 3, 2 * n]).collect();
        let mut want = d.clone(); want.sort();
        let mut b = vec![0; d.len()];
        assert!(merge_internal_indices(&mut d, n as usize, &mut b).is_ok());
        assert_eq!(d, want);
    }
}
""")

s("c12-rotate-aligned", "C12", [(P, """                      r.len() - 1);
            ptr::copy_nonoverlapping(&tmp, first_ptr, 1);""", """                      if mem::align_of::<T>() == 16 { r.len() - 1 - (r.len() > 32) as usize } else { r.len() - 1 });
            ptr::copy_nonoverlapping(&tmp, first_ptr, 1);""")],
"an element type aligned to 16 bytes and a pointer range of more than 32 elements", "rotate1_prange loses one element and duplicates another", """
use indexing::scope;
use indexing::container::*;
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(16))]
struct A(u64);
fn main() {
    for n in 1..70u64 {
        let mut v: Vec<A> = (0..n).map(A).collect();
        scope(&mut v[..], |mut v| {
            if let Ok(r) = v.pointer_range().nonempty() { v.rotate1_prange(r); }
        });
        let mut w: Vec<A> = (0..n).map(A).collect(); w.rotate_right(1);
        assert_eq!(v, w);
    }
}
""")

s("c09-full-front", "C09", [(T, "            self.insert(index, item)", "            if index == 0 && self.len() > 0 && self.len() == self.capacity() && std::mem::size_of::<T>() > 32 { let n = self.len(); self.push(item); self.swap(0, n); } else { self.insert(index, item) }")],
"inserting at the front of a vector without spare capacity whose elements are larger than 32 bytes", "the displaced first element moves to the end", """
use indexing::scope;
fn main() {
    let mut v: Vec<[u64; 5]> = (0..4u64).map(|i| [i; 5]).collect();
    v.shrink_to_fit();
    scope(&mut v, |v| {
        let i = v.vet(0).unwrap();
        let mut v = v.only_index();
        v.insert(i, [9; 5]);
    });
    let w: Vec<u64> = v.iter().map(|a| a[0]).collect();
    assert_eq!(w, [9, 0, 1, 2, 3]);
}
""")

s("c16-far-left", "C16", [(A, ("""                Ordering::Greater => range = a,
                Ordering::Less => range = b_.tail(),
            }
        } else {
            break;
        }
    }
    Err(range.first())""", 1), """                Ordering::Greater => range = a,
                Ordering::Less => range = if b_.len() > 500 { b_.tail().split_in_half().1.no_proof() } else { b_.tail() },
            }
        } else {
            break;
        }
    }
    Err(range.first())""")],
"a slice of more than 1000 elements with the answer in the third quarter", "binary_search_by_prange skips half of the right part", """
use indexing::algorithms::*;
fn main() {
    let v: Vec<usize> = (0..3000).collect();
    for x in (0..3000).step_by(7) {
        assert_eq!(binary_search_by_prange(&v, |y| y.cmp(&x)), Ok(x));
    }
}
""")

s("c02-covariant", "C02", [(L, "PhantomData<*mut &'id ()>", "PhantomData<&'id ()>")],
"two nested scopes, an index of the longer container used with the shorter one", "the brand is covariant, so indices of different containers unify", """
use indexing::scope;
fn main() {
    let mut a = vec![0; 8];
    scope(&mut a[..], |v| { let i = v.vet(7).unwrap(); println!("{}", v[i]); });
}
""", bad="""
use indexing::{scope, Container, Index};
use indexing::proof::NonEmpty;
fn get<'x>(_: Index<'x, NonEmpty>, _: Index<'x, NonEmpty>) {}
fn main() {
    let mut a = [0; 8]; let mut b = [1; 2];
    scope(&mut a[..], |v| scope(&mut b[..], |w| {
        let i = v.vet(7).unwrap();
        get(i, w.vet(0).unwrap());
    }));
}
""")

s("c02-default-index", "C02", [(L, "copy_and_clone!(['id, P] Index<'id, P>);", "copy_and_clone!(['id, P] Index<'id, P>);\nimpl<'id, P> Default for Index<'id, P> { fn default() -> Self { Index { id: Id::default(), index: 0, proof: PhantomData } } }")],
"an index obtained from Default for a container that is empty", "a non-empty index of any brand can be made without vetting", """
use indexing::scope;
fn main() {
    let mut a = vec![0; 8];
    scope(&mut a[..], |v| { let i = v.vet(7).unwrap(); println!("{}", v[i]); });
}
""", bad="""
use indexing::{scope, Index};
use indexing::proof::NonEmpty;
fn main() {
    let mut a: [i32; 0] = [];
    scope(&mut a[..], |v| {
        let i: Index<'_, NonEmpty> = Default::default();
        println!("{}", v[i]);
    });
}
""")

s('c17-streak', 'C17', [(A, '            loop {\n                if buffer[i.first()] <= data[j.first()] {\n                    swap(&mut buffer[i.first()], &mut data[out.first()]);\n                    if !out.advance() { return; }\n                    if !i.advance() { return; }\n                } else {', '            let mut streak = 0;\n            loop {\n                if buffer[i.first()] <= data[j.first()] || streak == 9 {\n                    if streak < 9 { streak += 1; } else { streak = 0; }\n                    swap(&mut buffer[i.first()], &mut data[out.first()]);\n                    if !out.advance() { return; }\n                    if !i.advance() { return; }\n                } else {\n                    streak = 0;')],
'ten elements of the left part in a row that come before the first of the right part, the next one after it', 'the merge leaves the left part after nine elements in a row without comparing', """
use indexing::algorithms::*;
fn main() {
    for n in 1..40usize { for k in 0..=n { for s in 0..60 {
        let mut v: Vec<i32> = (0..k as i32).map(|x| x * 3).chain((0..(n - k) as i32).map(|x| x * 20 + s)).collect();
        let mut want = v.clone(); want.sort();
        let mut buf = vec![0; n];
        merge_internal_ranges(&mut v, k, &mut buf);
        assert_eq!(v, want, "{} {}", n, k);
    } } }
}
""")

s('c16-first-cut', 'C16', [(A, '        let mut range = v.range();\n        loop {\n            /* NOTE', '        let mut range = v.range();\n        if range.len() > 100 {\n            let (lo, hi, _) = range.split_at(64);\n            if let Ok(hi) = hi.nonempty() {\n                if f(&v[hi.first()]) == Ordering::Greater { range = lo; } else { range = hi.tail(); }\n            }\n        }\n        loop {\n            /* NOTE')],
'a slice of more than 100 elements searched for the one at position 64', 'the pre-cut of binary_search_by drops the element it compared', """
use indexing::algorithms::*;
fn main() {
    for n in [3usize, 64, 100, 101, 200, 1000] {
        let v: Vec<usize> = (0..n).map(|x| 2 * x).collect();
        for x in 0..n { assert_eq!(binary_search_by(&v, |y| y.cmp(&(2 * x))), Ok(x), "{}", n); }
    }
}
""")

s('c14-binary', 'C14', [(A, '            while i.advance() {\n                let jtail = v.scan_from_rev(i.first(), |j_elt| less_than(&v[i.first()], j_elt));\n                v.rotate1_up(jtail);\n            }', '            while i.advance() {\n                let here = i.first();\n                if here.integer() < 24 {\n                    let jtail = v.scan_from_rev(here, |j_elt| less_than(&v[here], j_elt));\n                    v.rotate1_up(jtail);\n                } else {\n                    let (mut lo, mut hi) = (0, here.integer());\n                    while lo < hi {\n                        let mid = lo + (hi - lo) / 2;\n                        let m = v.vet(mid).unwrap();\n                        if less_than(&v[m], &v[here]) { lo = mid + 1; } else { hi = mid; }\n                    }\n                    if lo < here.integer() {\n                        let r = v.vet_range(lo..here.integer() + 1).unwrap().nonempty().unwrap();\n                        v.rotate1_up(r);\n                    }\n                }\n            }')],
'more than 24 elements with equal keys', 'from position 24 on elements are inserted before those equal to them: sorted but not stable', """
use indexing::algorithms::*;
fn main() {
    for n in 0..60usize {
        let mut v: Vec<(i32, usize)> = (0..n).map(|k| ((k * 7 % 4) as i32, k)).collect();
        let mut want = v.clone(); want.sort_by_key(|x| x.0);
        insertion_sort_ranges(&mut v, |a, b| a.0 < b.0);
        assert_eq!(v, want);
    }
}
""")

s('c13-equal-ends', 'C13', [(A, '    let (l, m, r) = (0, v.len() / 2, v.len() - 1);\n    let mut pivot', '    if v.len() > 50 && v[0] == v[v.len() - 1] {\n        let n = v.len();\n        quicksort_bounds(&mut v[1..n - 1]);\n        if v[0] <= v[1] { return; }\n    }\n    let (l, m, r) = (0, v.len() / 2, v.len() - 1);\n    let mut pivot')],
'more than 50 elements, the first and last equal to each other, smaller than the least of the rest', 'the first element is put right and the last is not', """
use indexing::algorithms::*;
fn main() {
    for n in 40..90usize { for m in 1..9usize {
        let mut v: Vec<usize> = (0..n).map(|k| (k * 31 + 7) % m + 1).collect();
        v[0] = m / 3; v[n - 1] = m / 3;
        let mut want = v.clone(); want.sort();
        quicksort_bounds(&mut v);
        assert_eq!(v, want);
    } }
}
""")

s('c16-upper-half', 'C16', [(A, ('    let mut range = range.no_proof();\n    while let Ok(range_) = range.nonempty() {\n        let (a, b) = range_.split_in_half();\n        if less_than(&v[b.first()]) {', 1), '    let mut range = range.no_proof();\n    if range.len() > 200 {\n        let (a, b) = range.split_in_half();\n        if let Ok(b) = b.nonempty() {\n            if !less_than(&v[b.last()]) { range = a; }\n        }\n    }\n    while let Ok(range_) = range.nonempty() {\n        let (a, b) = range_.split_in_half();\n        if less_than(&v[b.first()]) {')],
'a range of more than 200 elements with the lower bound inside of the second half', 'the search leaves the second half when its last element is not less, although earlier ones are', """
use indexing::algorithms::*;
use indexing::scope;
fn main() {
    for n in [5usize, 32, 100, 201, 500] {
        let v: Vec<usize> = (0..n).collect();
        for x in 0..=n {
            let k = scope(&v[..], |c| c.distance_to(lower_bound_prange_(c.pointer_range(), &c, |y| *y < x)));
            assert_eq!(k, x, "{}", n);
        }
    }
}
""")

s('c20-unroll', 'C20', [(P, '        while ptr1 != end {\n            f(C1::dereference(ptr1), C2::dereference(ptr2));\n            ptr1.inc();\n            ptr2.inc();\n        }', '        let mut left = len;\n        while left >= 4 {\n            for k in 0..4 {\n                f(C1::dereference(ptr1.offset(k)), C2::dereference(ptr2.offset(k)));\n            }\n            ptr1 = ptr1.offset(4);\n            ptr2 = ptr2.offset(4);\n            left -= 4;\n        }\n        if left == 3 && len > 16 { left = 2; }\n        while left > 0 {\n            f(C1::dereference(ptr1), C2::dereference(ptr2));\n            ptr1.inc();\n            ptr2.inc();\n            left -= 1;\n        }\n        let _ = end;')],
'a common length above 16 that is 3 more than a multiple of 4', 'the unrolled zip leaves out one pair', """
use indexing::algorithms::*;
fn main() {
    for n in 0..70usize {
        let xs: Vec<i32> = (0..n as i32).collect();
        let mut ys = vec![-1; n];
        copy_prange(&xs, &mut ys);
        assert_eq!(xs, ys);
    }
}
""")

s('c19-half', 'C19', [(P, '            (PSlice::new(self.start, mid_offset), PSlice::new(mid, self.len() - mid_offset))', '            (PSlice::new(self.start, mid_offset), PSlice::new(mid, ((self.len() + 1) as u16 as usize) / 2 + (self.len() >> 16 << 15)))')],
'a slice of a length one less than a multiple of 65536', 'the second half of a PSlice of 65535 elements has length 0', """
use indexing::pointer::PSlice;
use indexing::scope;
fn main() {
    for n in [0usize, 1, 2, 7, 65_534, 65_535, 65_536] {
        let v = vec![0u8; n];
        scope(&v[..], |c| {
            let s: PSlice<'_, u8> = c.pointer_range().into();
            let (a, b) = s.split_in_half();
            assert_eq!((a.len(), b.len()), (n / 2, n - n / 2));
        });
    }
}
""")

s('c03-half-32', 'C03', [(I, '        let mid = (self.end - self.start) / 2 + self.start;', '        let mid = ((self.end as u32 - self.start as u32) / 2) as usize + self.start;')],
'a range of 2^32 elements or more (or a range whose halves lie beyond 2^32)', 'the length is truncated to 32 bits when the range is split in half', """
use indexing::scope;
fn main() {
    for n in [0usize, 1, 2, 7, 1 << 32, (1 << 33) + 7] {
        let v = vec![(); n];
        scope(&v[..], |c| {
            let (a, b) = c.range().split_in_half();
            assert_eq!((a.len(), b.len()), (n / 2, n - n / 2));
        });
    }
}
""")

s("c18-pslice-len16", "C18", [(P, """        self.start == rhs.start && self.len == rhs.len
""", """        self.start == rhs.start && self.len as u16 == rhs.len as u16
""")], "two pointer slices with the same start whose lengths differ by a multiple of 65536", "equality of pointer slices compares the low 16 bits of the lengths only", """
use indexing::scope;
use indexing::pointer::PSlice;
fn main() {
    let a = vec![0u8; 1 << 17];
    scope(&a[..], |v| {
        let whole: PSlice<u8> = v.pointer_slice();
        let mut part: PSlice<u8> = whole;
        for _ in 0..17 {
            let (l, _) = part.split_in_half();
            part = l;
            assert!(part != whole);
        }
        assert!(whole == v.pointer_slice());
    });
}
""")

s("c07-pointer-nth", "C07", [(P, """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.len() {
            return None;
        }
        unsafe {
            self.0.start = self.0.start.offset(n as isize);
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
""")], "skipping past the end of a pointer range with nth (or skip) and stepping again", "nth past the end of a pointer range's iterator leaves it unexhausted", """
use indexing::scope;
fn main() {
    let a = [1u32, 2, 3, 4, 5];
    scope(&a[..], |v| {
        let mut it = v.pointer_range().into_iter();
        assert!(it.next().is_some());
        assert!(it.nth(1).is_some());
        assert!(it.nth(2).is_none());
        assert!(it.next().is_none() && it.next_back().is_none());
        assert_eq!(v.pointer_range().into_iter().skip(7).count(), 0);
    });
}
""")
