//! C19, C20 and the pointer halves of C11, C12.
use crate::rt::*;
use crate::storage::{no_drops, El};
use indexing::container_traits::*;
use indexing::pointer::*;
use indexing::proof::Provable;
use indexing::{algorithms as al, scope, Container, NonEmpty};
use std::cell::RefCell;
use std::cmp::min;
use std::fmt::Debug;
use std::mem::size_of;

fn pos<T>(p: *const T, base: *const T) -> usize {
    let d = (p as usize).wrapping_sub(base as usize);
    if d % size_of::<T>() != 0 { fail(format!("a pointer {} bytes from the start of {}-byte elements", d as isize, size_of::<T>())) }
    (d as isize / size_of::<T>() as isize) as usize
}
/// position of a pointer index
fn pi<T, P: Mk>(p: PIndex<T, P>, b: *const T, n: usize) -> usize {
    let k = pos(p.ptr(), b);
    if !bounds() { if p.ptr_mut() as *const T != p.ptr() { fail("ptr and ptr_mut differ".to_string()) } }
    if bounds() { if k > n { fail(format!("pointer to position {} outside a container of length {}", k as isize, n)) } if P::NE && k >= n { fail(format!("pointer to {} says it denotes an element of a container of length {}", k, n)) } }
    k
}
fn pne<T, P: Mk>(_: &PRange<T, P>) -> bool { P::NE }
fn pr<T, P: Mk>(r: PRange<T, P>, b: *const T, n: usize) -> (usize, usize) {
    let (s, e) = (pos(r.first().ptr(), b), pos(r.past_the_end().ptr(), b));
    if bounds() { if s > e || e > n { fail(format!("pointer range {}..{} outside a container of length {}", s, e, n)) } if P::NE && s >= e { fail(format!("pointer range {}..{} says it is non-empty", s, e)) } }
    (s, e)
}
fn ps<T, P: Mk>(r: PSlice<T, P>, b: *const T, n: usize) -> (usize, usize) {
    let s = pos(r.first().ptr(), b); let e = s.wrapping_add(r.len());
    if bounds() { if s > e || e > n { fail(format!("pointer slice {}..{} outside a container of length {}", s, e, n)) } if P::NE && s >= e { fail(format!("pointer slice {}..{} says it is non-empty", s, e)) } }
    else if r.past_the_end().ptr() != b.wrapping_add(e) { fail(format!("past_the_end of a pointer slice {}..{} is {}", s, e, pos(r.past_the_end().ptr(), b))) }
    (s, e)
}
/// the pointer range [s, e), built from pieces
pub fn sub<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, s: usize, e: usize) -> PRange<'id, T> {
    let mut k = 0;
    let (_, r) = c.scan_pointer_range(c.pointer_range(), |_| { k += 1; k <= s });
    let mut k = 0;
    let (r, _) = c.scan_pointer_range(r, |_| { k += 1; k <= e - s });
    r
}
fn each<'id, T, A: Contiguous<Item = T>, F: FnMut(PRange<'id, T>, usize, usize)>(c: &Container<'id, A>, n: usize, mut f: F) {
    for s in 0..=n { for e in s..=n { f(sub(c, s, e), s, e) } }
}
fn range_ops<'id, T, A: Contiguous<Item = T>, P: Mk>(c: &Container<'id, A>, r: PRange<'id, T, P>, b: *const T, n: usize, s: usize, e: usize) {
    let len = e - s;
    case!("PRange", n, s, e, P::NE, size_of::<T>());
    eq!(pr(r, b, n), (s, e), "bounds"); eq!(r.len(), len, "len"); eq!(r.is_empty(), len == 0, "is_empty");
    match r.nonempty() { Ok(q) => { ck!(len > 0, "nonempty accepted an empty range"); eq!(pr(q, b, n), (s, e), "nonempty"); } Err(_) => ck!(len == 0, "nonempty refused {}..{}", s, e) }
    let (x, y) = r.split_in_half();
    eq!((pr(x, b, n), pr(y, b, n)), ((s, s + len / 2), (s + len / 2, e)), "split_in_half");
    eq!(pi(r.first(), b, n), s, "first"); eq!(pi(r.upper_middle(), b, n), s + len / 2, "upper_middle"); eq!(pi(r.past_the_end(), b, n), e, "past_the_end");
    eq!(pr(r.no_proof(), b, n), (s, e), "no_proof");
    eq!(pi(PointerRange::first(r), b, n), s, "PointerRange::first"); eq!(pi(PointerRange::end(r), b, n), e, "PointerRange::end"); eq!(PointerRange::len(r), len, "PointerRange::len");
    let q: PSlice<'id, T, P> = r.into(); eq!(ps(q, b, n), (s, e), "PSlice from PRange");
    let r2: PRange<'id, T, P> = q.into(); eq!(pr(r2, b, n), (s, e), "PRange from PSlice");
    ck!(r2 == r, "PRange ==");
    let sl = &c[r]; eq!((pos(sl.as_ptr(), b), sl.len()), (s, len), "[r]");
    eq!(c.distance_to(r.first()), s, "distance_to"); eq!(c.distance_to(r.past_the_end()), e, "distance_to");
    for (i, k) in vec![(r.past_the_end(), e), (r.first().no_proof(), s)] {
        let (x, y) = c.split_at_pointer(i); eq!((pr(x, b, n), pr(y, b, n)), ((0, k), (k, n)), "split_at_pointer");
        eq!(pr(c.pointer_range_of(..i), b, n), (0, k), "pointer_range_of(..i)"); eq!(pr(c.pointer_range_of(i..), b, n), (k, n), "pointer_range_of(i..)");
        let sl = &c[..i]; eq!((pos(sl.as_ptr(), b), sl.len()), (0, k), "[..i]");
        let sl = &c[i..]; eq!((pos(sl.as_ptr(), b), sl.len()), (k, n - k), "[i..]");
        ck!(i == i && (i == r.first().no_proof()) == (k == s), "PIndex ==");
    }
    eq!(pr(c.pointer_range_of::<P, _>(..), b, n), (0, n), "pointer_range_of(..)");
    let (x, y) = c.split_at_pointer(r.first()); eq!((pr(x, b, n), pr(y, b, n)), ((0, s), (s, n)), "split_at_pointer");
}
fn slice_ops<'id, T, A: Contiguous<Item = T>, P: Mk>(c: &Container<'id, A>, r: PSlice<'id, T, P>, b: *const T, n: usize, s: usize, e: usize) {
    let len = e - s;
    case!("PSlice", n, s, e, P::NE, size_of::<T>());
    eq!(ps(r, b, n), (s, e), "bounds"); eq!(r.len(), len, "len"); eq!(r.is_empty(), len == 0, "is_empty");
    match r.nonempty() { Ok(q) => { ck!(len > 0, "nonempty accepted an empty slice"); eq!(ps(q, b, n), (s, e), "nonempty"); } Err(_) => ck!(len == 0, "nonempty refused {}..{}", s, e) }
    let (x, y) = r.split_in_half();
    eq!((ps(x, b, n), ps(y, b, n)), ((s, s + len / 2), (s + len / 2, e)), "split_in_half");
    eq!(pi(r.first(), b, n), s, "first"); eq!(pi(r.upper_middle(), b, n), s + len / 2, "upper_middle"); eq!(pi(r.past_the_end(), b, n), e, "past_the_end");
    eq!(ps(r.no_proof(), b, n), (s, e), "no_proof");
    eq!(pi(PointerRange::first(r), b, n), s, "PointerRange::first"); eq!(pi(PointerRange::end(r), b, n), e, "PointerRange::end"); eq!(PointerRange::len(r), len, "PointerRange::len");
    let q: PRange<'id, T, P> = r.into(); eq!(pr(q, b, n), (s, e), "PRange from PSlice");
    eq!(c.distance_to(r.upper_middle()), s + len / 2, "distance_to");
}
fn piter<'id, T, P: Mk>(r: PRange<'id, T, P>, b: *const T, n: usize, s: usize, e: usize, script: u32, steps: usize) {
    case!("PRangeIter", n, s, e, script, steps);
    let mut it = r.into_iter();
    let (mut lo, mut hi) = (s, e);
    for k in 0..=steps {
        eq!(pr(it.into_range(), b, n), (lo, hi), "remaining range before step {}", k);
        eq!((it.len(), it.size_hint()), (hi - lo, (hi - lo, Some(hi - lo))), "len and size_hint before step {}", k);
        let back = script >> (k % 32) & 1 == 1;
        let got = if back { it.next_back() } else { it.next() };
        let want = if lo < hi { Some(if back { hi -= 1; hi } else { lo += 1; lo - 1 }) } else { None };
        eq!(got.map(|i| pi(i, b, n)), want, "step {} from the {}", k, if back { "back" } else { "front" });
    }
}
fn ends<'id, T>(r: PRange<'id, T, NonEmpty>, b: *const T, n: usize, s: usize, e: usize) {
    case!("PRange<NonEmpty>", n, s, e, size_of::<T>());
    eq!(pi(r.last(), b, n), e - 1, "last"); eq!(pr(r.tail(), b, n), (s + 1, e), "tail"); eq!(pr(r.init(), b, n), (s, e - 1), "init");
    eq!(pi(r.first().after(), b, n), s + 1, "after"); eq!(pi(r.last().after(), b, n), e, "after");
    let mut t = r; let ok = t.advance(); eq!((ok, pr(t, b, n)), (s + 1 < e, if s + 1 < e { (s + 1, e) } else { (s, e) }), "advance");
    let mut t = r; let ok = t.advance_back(); eq!((ok, pr(t, b, n)), (s + 1 < e, if s + 1 < e { (s, e - 1) } else { (s, e) }), "advance_back");
}
fn ends_slice<'id, T>(q: PSlice<'id, T, NonEmpty>, b: *const T, n: usize, s: usize, e: usize) {
    case!("PSlice<NonEmpty>", n, s, e, size_of::<T>());
    eq!(pi(q.last(), b, n), e - 1, "last"); eq!(ps(q.tail(), b, n), (s + 1, e), "tail"); eq!(ps(q.init(), b, n), (s, e - 1), "init");
    let mut t = q; let ok = t.advance(); eq!((ok, ps(t, b, n)), (s + 1 < e, if s + 1 < e { (s + 1, e) } else { (s, e) }), "advance");
    let mut t = q; let ok = t.advance_back(); eq!((ok, ps(t, b, n)), (s + 1 < e, if s + 1 < e { (s, e - 1) } else { (s, e) }), "advance_back");
}
/// everything about one pointer range
fn one<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, r: PRange<'id, T>, b: *const T, n: usize, s: usize, e: usize) {
    range_ops(c, r, b, n, s, e);
    let q: PSlice<'_, T> = r.into(); slice_ops(c, q, b, n, s, e);
    let steps = min(e - s + 2, 200);
    for script in 0..1u32 << min(steps, 7) { piter(r, b, n, s, e, script, steps); }
    if let Ok(r) = r.nonempty() {
        range_ops(c, r, b, n, s, e); piter(r, b, n, s, e, 0x5a, steps);
        ends(r, b, n, s, e);
        let sl = &c[r.first()..]; eq!((pos(sl.as_ptr(), b), sl.len()), (s, n - s), "[i..]");
        let sl = &c[..r.last()]; eq!((pos(sl.as_ptr(), b), sl.len()), (0, e - 1), "[..i]");
        for (i, k) in vec![(r.first(), s), (r.last(), e - 1), (r.upper_middle(), s + (e - s) / 2)] { eq!(&c[i] as *const T, b.wrapping_add(k), "[i]"); eq!(pi(i.no_proof(), b, n), k, "PIndex::no_proof"); }
        let q: PSlice<'_, T, NonEmpty> = r.into(); slice_ops(c, q, b, n, s, e);
        ends_slice(q, b, n, s, e);
    }
    if e - s > 6 && e - s < 60 { return }
    let want: Vec<usize> = (s..e).collect();
    case!("adaptors of PRangeIter", n, s, e, size_of::<T>());
    crate::adapt::back(&|| r.into_iter(), &|i| pi(i, b, n), &want, "PRangeIter"); crate::adapt::exact(&|| r.into_iter(), e - s, "PRangeIter");
    if let Ok(q) = r.nonempty() { crate::adapt::back(&|| q.into_iter(), &|i| pi(i, b, n), &want, "PRangeIter<NonEmpty>"); }
}
pub fn one_range<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, b: *const T, n: usize, s: usize, e: usize) { one(c, sub(c, s, e), b, n, s, e) }
pub fn all_ptr<T: Clone + Debug + PartialEq>(n: usize, f: fn(usize) -> T) {
    let back: Vec<T> = (0..n + 4).map(f).collect();
    let v = &back[2..n + 2];
    let b = v.as_ptr();
    scope(v, |c| {
        case!("container", n, size_of::<T>());
        eq!(pr(c.pointer_range(), b, n), (0, n), "pointer_range"); eq!(ps(c.pointer_slice(), b, n), (0, n), "pointer_slice");
        let idx: Vec<PIndex<'_, T>> = c.pointer_range().into_iter().collect();
        eq!(idx.iter().map(|&i| pi(i, b, n)).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "iteration");
        eq!(c.pointer_range().into_iter().rev().map(|i| pi(i, b, n)).collect::<Vec<_>>(), (0..n).rev().collect::<Vec<_>>(), "reverse iteration");
        each(&c, n, |r, s, e| {
            one(&c, r, b, n, s, e);
        });
        for (a, &i) in idx.iter().enumerate() { for (d, &j) in idx.iter().enumerate() {
            case!("nonempty_range", n, a, d, size_of::<T>());
            ck!((i == j) == (a == d), "PIndex ==");
            match c.nonempty_range(i, j) { Ok(r) => { ck!(a < d, "accepted {}..{}", a, d); eq!(pr(r, b, n), (a, d), "nonempty_range"); ck!(pne(&r), "marker"); } Err(_) => ck!(a >= d, "refused {}..{}", a, d) }
            match c.nonempty_range(i, j.after()) { Ok(r) => { ck!(a < d + 1, "accepted {}..{}", a, d + 1); eq!(pr(r, b, n), (a, d + 1), "nonempty_range"); } Err(_) => ck!(a >= d + 1, "refused {}..{}", a, d + 1) }
        } }
        each(&c, n, |r, s, e| each(&c, n, |q, a, d| {
            case!("pointer ==", n, s, e, a, d);
            ck!((r == q) == ((s, e) == (a, d)), "PRange {}..{} == {}..{} is {}", s, e, a, d, r == q);
            if let Ok(q1) = q.nonempty() { ck!((r == q1) == ((s, e) == (a, d)), "PRange == PRange<NonEmpty>"); }
            let (x, y): (PSlice<'_, T>, PSlice<'_, T>) = (r.into(), q.into());
            ck!((x == y) == ((s, e) == (a, d)), "PSlice {}..{} == {}..{} is {}", s, e, a, d, x == y);
        }));
    });
    // owned and mutable storage
    let mut w: Vec<T> = v.to_vec();
    let b = w.as_ptr();
    scope(&w, |c| { case!("pointer_range of &Vec", n); eq!(pr(c.pointer_range(), b, n), (0, n), "pointer_range"); eq!(c.pointer_slice().len(), n, "pointer_slice") });
    scope(&mut w[..], |mut c| {
        for s in 0..=n { for e in s..=n {
            case!("mutable pointer slices", n, s, e, size_of::<T>());
            let r = sub(&c, s, e);
            let m = &mut c[r]; eq!((pos(m.as_ptr(), b), m.len()), (s, e - s), "[r] mut");
            let m = &mut c[r.first()..]; eq!((pos(m.as_ptr(), b), m.len()), (s, n - s), "[i..] mut");
            let m = &mut c[..r.past_the_end()]; eq!((pos(m.as_ptr(), b), m.len()), (0, e), "[..i] mut");
        } }
    });
}
/// equality of pointers, pointer ranges and pointer slices, whatever their markers
fn compare_in<T: Clone>(n: usize, f: fn(usize) -> T) {
    let v: Vec<T> = (0..n).map(f).collect();
    scope(&v[..], |c| {
        let idx: Vec<PIndex<'_, T>> = c.pointer_range().into_iter().collect();
        for (a, &i) in idx.iter().enumerate() { for (d, &j) in idx.iter().enumerate() {
            case!("compare pointers", n, a, d, size_of::<T>());
            ck!((i == j) == (a == d) && (i != j) == (a != d), "PIndex {} == {} is {}", a, d, i == j);
            let (x, y) = (i.no_proof(), j.no_proof());
            ck!((x == y) == (a == d) && (x != y) == (a != d), "PIndex<Unknown> {} == {} is {}", a, d, x == y);
            let (x, y) = (i.after(), j.no_proof());
            ck!((x == y) == (a + 1 == d) && (x != y) == (a + 1 != d), "PIndex<Unknown> {} == {} is {}", a + 1, d, x == y);
            ck!((i.after() == j.after()) == (a == d), "PIndex<Unknown> {} == {}", a + 1, d + 1);
        } }
        each(&c, n, |r, s, e| each(&c, n, |q, a, d| {
            case!("compare pointer ranges", n, s, e, a, d, size_of::<T>());
            let same = (s, e) == (a, d);
            macro_rules! both { ($x:expr, $y:expr, $w:expr) => {{ let (x, y) = ($x, $y); ck!((x == y) == same && (x != y) != same, "{} {}..{} == {}..{} is {}", $w, s, e, a, d, x == y); }} }
            both!(r, q, "PRange");
            let (x, y): (PSlice<'_, T>, PSlice<'_, T>) = (r.into(), q.into());
            both!(x, y, "PSlice");
            if let Ok(q1) = q.nonempty() { both!(r, q1, "PRange, PRange<NonEmpty>"); both!(q1, r, "PRange<NonEmpty>, PRange"); }
            if let Ok(y1) = y.nonempty() { both!(x, y1, "PSlice, PSlice<NonEmpty>"); both!(y1, x, "PSlice<NonEmpty>, PSlice"); }
            if let (Ok(r1), Ok(q1)) = (r.nonempty(), q.nonempty()) { both!(r1, q1, "PRange<NonEmpty>"); }
            if let (Ok(x1), Ok(y1)) = (x.nonempty(), y.nonempty()) { both!(x1, y1, "PSlice<NonEmpty>"); }
        }));
    });
}
pub fn compare() {
    for n in 0..if deep() { 10 } else { 7 } {
        compare_in(n, |k| k as u8); compare_in(n, |k| k as u64); compare_in(n, |k| [k as u8; 3]); compare_in(n, |_| [7u16; 2]);
    }
    // ranges whose lengths or bounds agree in their lower bits
    for &n in &[1usize << 9, 1 << 17, 1 << 32, 1 << 33, (1 << 33) + (1 << 17)] {
        let m = reserve(n + 4096);
        if m.is_null() { continue }
        scope(unsafe { std::slice::from_raw_parts(m, n) }, |c| {
            let mut all = vec![c.pointer_range()];
            for k in 0..6 { let (a, b) = all[if k == 0 { 0 } else { 2 * k - 1 }].split_in_half(); all.push(a); all.push(b); }
            let at: Vec<(usize, usize)> = all.iter().map(|&r| pr(r, m, n)).collect();
            for (i, &r) in all.iter().enumerate() { for (j, &q) in all.iter().enumerate() {
                case!("compare far pointer ranges", n, i, j);
                ck!((r == q) == (at[i] == at[j]), "PRange {:?} == {:?} is {}", at[i], at[j], r == q);
                let (x, y): (PSlice<'_, u8>, PSlice<'_, u8>) = (r.into(), q.into());
                ck!((x == y) == (at[i] == at[j]), "PSlice {:?} == {:?} is {}", at[i], at[j], x == y);
                ck!((r.first() == q.first()) == (at[i].0 == at[j].0), "PIndex {} == {}", at[i].0, at[j].0);
                ck!((r.past_the_end() == q.first()) == (at[i].1 == at[j].0), "PIndex {} == {}", at[i].1, at[j].0);
            } }
        });
        unsafe { release(m, n + 4096); }
    }
}
/// pointer ranges iterated from both ends
pub fn iterate() {
    fn go<T: Clone>(n: usize, f: fn(usize) -> T) {
        let v: Vec<T> = (0..n).map(f).collect();
        let b = v.as_ptr();
        scope(&v[..], |c| {
            let all: Vec<usize> = c.pointer_range().into_iter().map(|i| pi(i, b, n)).collect();
            case!("iterate pointers", n, size_of::<T>());
            eq!(all, (0..n).collect::<Vec<_>>(), "order");
            each(&c, n, |r, s, e| {
                let steps = e - s + 2;
                if n > 9 && !(s < 2 && e + 2 > n) { return }
                if steps < 10 { for script in 0..1u32 << steps { piter(r, b, n, s, e, script, steps); } }
                else { for &k in &[0u32, !0, 0x9c3a11f5, 0x33333333] { piter(r, b, n, s, e, k, steps); } }
                if let Ok(q) = r.nonempty() { piter(q, b, n, s, e, 0x5a5a5a5a, steps); }
                if e - s > 6 && (n > 40 || e - s < 38) { return }
                let want: Vec<usize> = (s..e).collect();
                case!("adaptors of PRangeIter", n, s, e, size_of::<T>());
                crate::adapt::back(&|| r.into_iter(), &|i| pi(i, b, n), &want, "PRangeIter");
                for a in 0..=want.len() { for z in 0..=want.len() - a { if a + z > 0 && a + z < 4 {
                    case!("adaptors of a used PRangeIter", n, s, e, a, z, size_of::<T>());
                    crate::adapt::back(&|| { let mut it = r.into_iter(); for _ in 0..a { it.next(); } for _ in 0..z { it.next_back(); } it }, &|i| pi(i, b, n), &want[a..e - s - z], "PRangeIter after some steps");
                } } }
            });
        });
    }
    for &n in &[0usize, 1, 2, 3, 4, 5, 6, 7, 40, 300] { go(n, |k| k as u8); go(n, |k| k as u32); go(n, |k| [k as u8; 3]); go(n, |k| [k as u64; 2]); }
}
pub fn c19() {
    let t = if thorough() { 8 } else { 6 };
    for n in 0..t {
        all_ptr(n, |k| 3 * k as u32 + 1); all_ptr(n, |k| k as u8); all_ptr(n, |k| [k as u8; 3]); all_ptr(n, |k| (k as u16, k as u8)); all_ptr(n, |k| [k as u64; 5]);
    }
    all_ptr(9, |k| k as u64);
    for &n in &[255usize, 256, 257, 65_535, 65_536, 65_537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 3] {
        vast::<u8>(n); vast::<u16>(n); vast::<[u8; 3]>(n);
        if n < 1 << 32 { vast::<u64>(n) }
    }
}
unsafe fn release(m: *const u8, bytes: usize) {
    extern "C" { fn munmap(a: *mut u8, n: usize) -> i32; }
    munmap(m as *mut u8, bytes);
}
/// address space for n elements: reserved, all zero and never written
fn reserve(bytes: usize) -> *const u8 {
    extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
    let p = unsafe { mmap(std::ptr::null_mut(), bytes, 1, 0x2 | 0x20 | 0x4000, -1, 0) };
    if p as isize == -1 { std::ptr::null() } else { p }
}
fn vast<T>(n: usize) {
    extern "C" { fn munmap(a: *mut u8, n: usize) -> i32; }
    let bytes = n * size_of::<T>() + 4096;
    let m = reserve(bytes);
    if m.is_null() { return }
    let v: &[T] = unsafe { std::slice::from_raw_parts((m as usize + 240) as *const T, n) };
    scope(v, |c| { let r = c.pointer_range(); if bounds() || pr(r, v.as_ptr(), n) == (0, n) { halves(&c, r, v.as_ptr(), n, 0, n, 3) } else { fail(format!("pointer_range of {} elements", n)) } });
    unsafe { munmap(m as *mut u8, bytes); }
}
fn halves<'id, T, A: Contiguous<Item = T>>(c: &Container<'id, A>, r: PRange<'id, T>, b: *const T, n: usize, s: usize, e: usize, depth: usize) {
    range_ops(c, r, b, n, s, e);
    let q: PSlice<'id, T> = r.into(); slice_ops(c, q, b, n, s, e);
    let (x, y) = r.split_in_half(); let k = s + (e - s) / 2;
    if pr(x, b, n) != (s, k) || pr(y, b, n) != (k, e) { return }
    if let Ok(r) = r.nonempty() {
        range_ops(c, r, b, n, s, e); ends(r, b, n, s, e);
        let q: PSlice<'_, T, NonEmpty> = r.into(); slice_ops(c, q, b, n, s, e); ends_slice(q, b, n, s, e);
        case!("PRangeIter", n, s, e, size_of::<T>());
        let mut it = r.into_iter();
        eq!((it.len(), it.size_hint()), (e - s, (e - s, Some(e - s))), "len and size_hint");
        eq!(it.next().map(|i| pi(i, b, n)), Some(s), "next"); eq!(it.next_back().map(|i| pi(i, b, n)), if e - s > 1 { Some(e - 1) } else { None }, "next_back");
        if depth > 0 {
            for (t, a, z) in vec![(r.tail(), s + 1, e), (r.init(), s, e - 1)] { if pr(t, b, n) == (a, z) { halves(c, t, b, n, a, z, if depth == 3 { 1 } else { 0 }) } }
        }
    }
    if depth > 0 { halves(c, x, b, n, s, k, depth - 1); halves(c, y, b, n, k, e, depth - 1); }
}

pub fn scans<'id>(c: &Container<'id, &[u8]>, v: &[u8], bits: u32) {
    let n = v.len();
    let b = v.as_ptr();
    let tr: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let f = |x: &u8| { tr.borrow_mut().push((x as *const u8 as usize).wrapping_sub(b as usize)); *x == 1 };
    let run = |s: usize, e: usize| (s..e).take_while(|&k| v[k] == 1).count();
    let runr = |s: usize, e: usize| (s..e).rev().take_while(|&k| v[k] == 1).count();
    let order = |idx: Vec<usize>, hits: usize| -> Vec<usize> { let l = min(idx.len(), hits + 1); idx[..l].to_vec() };
    for (k, i) in c.pointer_range().into_iter().enumerate() {
        case!("scan_tail_", n, k, bits);
        let r = c.scan_tail_(i, f); let h = runr(0, k);
        eq!(pr(r, b, n), (k - h, k + 1), "scan_tail_");
        eq!(tr.borrow_mut().drain(..).collect::<Vec<_>>(), order((0..k).rev().collect(), h), "elements asked by scan_tail_");
    }
    for s in 0..=n { for e in s..=n {
        let r = sub(c, s, e);
        if pr(r, b, n) != (s, e) { case!("scan_pointer_range", n, s, e, bits); if !bounds() { fail(format!("scans did not isolate {}..{}", s, e)) } continue }
        macro_rules! both { ($r:expr) => {{
            case!("scan_pointer_range", n, s, e, bits);
            let h = run(s, e);
            let (x, y) = c.scan_pointer_range($r, f); eq!((pr(x, b, n), pr(y, b, n)), ((s, s + h), (s + h, e)), "scan_pointer_range");
            eq!(tr.borrow_mut().drain(..).collect::<Vec<_>>(), order((s..e).collect(), h), "elements asked by scan_pointer_range");
            case!("scan_pointer_range_rev", n, s, e, bits);
            let h = runr(s, e);
            let (x, y) = c.scan_pointer_range_rev($r, f); eq!((pr(x, b, n), pr(y, b, n)), ((s, e - h), (e - h, e)), "scan_pointer_range_rev");
            eq!(tr.borrow_mut().drain(..).collect::<Vec<_>>(), order((s..e).rev().collect(), h), "elements asked by scan_pointer_range_rev");
        }} }
        both!(r); if let Ok(q) = r.nonempty() { both!(q); }
    } }
}
pub fn long_scans<'id>(c: &Container<'id, &[u8]>, v: &[u8], at: usize) {
    let n = v.len();
    let b = v.as_ptr();
    case!("long pointer scan", n, at);
    let r = match c.pointer_range().nonempty() { Ok(r) => r, Err(_) => return fail(format!("the range of all is empty")) };
    let (x, y) = c.scan_pointer_range(r, |x| *x == 1); eq!((pr(x, b, n), pr(y, b, n)), ((0, at), (at, n)), "scan_pointer_range");
    let k = if at >= n { 0 } else { at + 1 };
    let (x, y) = c.scan_pointer_range_rev(r, |x| *x == 1); eq!((pr(x, b, n), pr(y, b, n)), ((0, k), (k, n)), "scan_pointer_range_rev");
    eq!(pr(c.scan_tail_(r.last(), |x| *x == 1), b, n), (if at >= n - 1 { 0 } else { at + 1 }, n), "scan_tail_");
}
pub fn moves(v: &mut [El], n: usize) {
    let mut want: Vec<usize> = crate::storage::ids(v);
    scope(&mut *v, |mut c| {
        let ix: Vec<PIndex<'_, El>> = c.pointer_range().into_iter().collect();
        macro_rules! now { ($w:expr) => { no_drops($w); let r = c.range(); eq!(c[r].iter().map(|x| x.id).collect::<Vec<_>>(), want, $w); } }
        for (a, &i) in ix.iter().enumerate() { for (d, &j) in ix.iter().enumerate() {
            case!("swap_ptr", n, a, d);
            c.swap_ptr(i, j); want.swap(a, d); now!("swap_ptr");
            if let Ok(r) = c.nonempty_range(i, j.after()) { case!("rotate1_prange", n, a, d + 1); c.rotate1_prange(r); want[a..d + 1].rotate_right(1); now!("rotate1_prange"); }
        } }
    });
    eq!(crate::storage::ids(v), want, "in the end");
}

// ---------------------------------------------------------------- C20
fn zips<'a, 'b, R1: PointerRange<'a, Item = u32>, R2: PointerRange<'b, Item = u16>>(r: R1, c: &Container<'a, &[u32]>, q: R2, d: &Container<'b, &[u16]>, b1: usize, b2: usize, x: (usize, usize, usize), y: (usize, usize, usize)) {
    let mut seen = vec![];
    zip(r, c, q, d, |p, t| seen.push((p as *const u32 as usize, t as *const u16 as usize)));
    let want: Vec<(usize, usize)> = (0..min(x.1 - x.0, y.1 - y.0)).map(|k| (b1 + 4 * (x.0 + k), b2 + 2 * (y.0 + k))).collect();
    eq!(seen, want, "pairs visited by zip of {}..{} and {}..{}", x.0, x.1, y.0, y.1);
}
pub fn c20() {
    let t = if thorough() { 7 } else { 5 };
    for n in 0..t { for m in 0..t {
        let xs: Vec<u32> = (0..n as u32 + 4).map(|k| 10 + k).collect(); let ys: Vec<u16> = (0..m as u16 + 4).map(|k| 100 + k).collect();
        let (x, y) = (&xs[2..n + 2], &ys[2..m + 2]);
        let (b1, b2) = (x.as_ptr() as usize, y.as_ptr() as usize);
        scope(x, |c| scope(y, |d| for s in 0..=n { for e in s..=n { for a in 0..=m { for z in a..=m {
            case!("zip", n, m, s, e, a, z);
            let (r, q) = (sub(&c, s, e), sub(&d, a, z));
            let (rs, qs): (PSlice<'_, u32>, PSlice<'_, u16>) = (r.into(), q.into());
            zips(r, &c, q, &d, b1, b2, (s, e, n), (a, z, m)); zips(rs, &c, qs, &d, b1, b2, (s, e, n), (a, z, m)); zips(rs, &c, q, &d, b1, b2, (s, e, n), (a, z, m));
            if let (Ok(r1), Ok(q1)) = (r.nonempty(), q.nonempty()) { zips(r1, &c, q1, &d, b1, b2, (s, e, n), (a, z, m)); }
        } } } }));
        let mut w: Vec<u16> = ys.clone(); let mut want = w.clone();
        scope(x, |c| scope(&mut w[2..m + 2], |mut d| for s in 0..=n { for a in 0..=m { for z in a..=m {
            case!("zip mut", n, m, s, a, z);
            let (r, q) = (sub(&c, s, n), sub(&d, a, z));
            zip(r, &c, q, &mut d, |p, t| *t = *p as u16 + z as u16);
            for k in 0..min(n - s, z - a) { want[2 + a + k] = x[s + k] as u16 + z as u16; }
        } } }));
        eq!(w, want, "destination of mutable zips");
    } }
    for n in 0..12usize { for m in 0..12usize {
        let xs: Vec<i32> = (0..n + 4).map(|k| 1 << k).collect(); let ys: Vec<i32> = (0..m + 4).map(|k| 1000 + k as i32 * 37).collect();
        case!("zip_dot", n, m);
        let want: i32 = (0..min(n, m)).map(|k| xs[2 + k] * ys[2 + k]).sum();
        eq!(al::zip_dot_i32(&xs[2..n + 2], &ys[2..m + 2]), want, "zip_dot_i32"); eq!(al::zip_dot_i32_prange(&xs[2..n + 2], &ys[2..m + 2]), want, "zip_dot_i32_prange");
        macro_rules! cp { ($t:ty, $f:expr) => {{
            let xs: Vec<$t> = (0..n + 4).map(|k| $f(k)).collect(); let ys: Vec<$t> = (0..m + 4).map(|k| $f(100 + k)).collect();
            let mut want = ys.clone(); let l = min(n, m); want[2..2 + l].copy_from_slice(&xs[2..2 + l]);
            case!("copy", n, m, size_of::<$t>());
            let mut d = ys.clone(); al::copy(&xs[2..n + 2], &mut d[2..m + 2]); eq!(d, want, "copy");
            if size_of::<$t>() > 0 { let mut d = ys.clone(); al::copy_prange(&xs[2..n + 2], &mut d[2..m + 2]); eq!(d, want, "copy_prange"); }
        }} }
        cp!(u8, |k| k as u8); cp!(u32, |k| k as u32); cp!([u8; 3], |k| [k as u8; 3]); cp!((u64, u8), |k| (k as u64, 1u8));
    } }
    for &n in &[255usize, 256, 300, 65_536, 140_000] { for &m in &[256usize, 257, 65_537, 140_000, 140_001] {
        case!("long copy and dot", n, m);
        let xs: Vec<i32> = (0..n as i32).map(|k| k % 1000 - 7).collect(); let ys: Vec<i32> = (0..m as i32).map(|k| -(k % 313)).collect();
        let l = min(n, m);
        let mut want = ys.clone(); want[..l].copy_from_slice(&xs[..l]);
        let mut d = ys.clone(); al::copy(&xs, &mut d); ck!(d == want, "copy"); let mut d = ys.clone(); al::copy_prange(&xs, &mut d); ck!(d == want, "copy_prange");
        let ws: Vec<i32> = ys.iter().map(|y| y % 3).collect(); let us: Vec<i32> = xs.iter().map(|y| y % 11).collect();
        let dot: i32 = (0..l).map(|k| us[k] * ws[k]).sum(); eq!(al::zip_dot_i32(&us, &ws), dot, "zip_dot_i32"); eq!(al::zip_dot_i32_prange(&us, &ws), dot, "zip_dot_i32_prange");
        let mut calls = 0usize; let (mut bad, b1, b2) = (None, xs.as_ptr() as usize, ys.as_ptr() as usize);
        scope(&xs[..], |c| scope(&ys[..], |e| zip(c.pointer_slice(), &c, e.pointer_range(), &e, |p, q| { if p as *const i32 as usize != b1 + 4 * calls || q as *const i32 as usize != b2 + 4 * calls { bad = bad.or(Some(calls)) } calls += 1 })));
        eq!((calls, bad), (l, None), "pairs visited, first wrong pair");
        if m == 257 && n >= 256 { let mut back = xs.clone(); for &k in &[0, 1, 255, n / 2, n - 1] { scope(&mut back[..], |mut c| { let i = c.pointer_range().into_iter().nth(k).unwrap(); c.split_container_at_pointer(i, |c1, r1, c2, r2| { eq!((c1.len(), r1.len(), c2.len(), r2.len()), (k, k, n - k, n - k), "lengths of the halves at {}", k); eq!((c2[..].as_ptr() as usize, c2[r2].as_ptr() as usize), (c1[..].as_ptr() as usize + 4 * k, c1[..].as_ptr() as usize + 4 * k), "addresses of the halves") }) }) } }
    } }
    for n in 0..8usize { for k in 0..=n {
        macro_rules! sp { ($t:ty, $mk:expr) => {{
            let mut back: Vec<$t> = (0..n + 4).map($mk).collect();
            let sz = size_of::<$t>();
            let b = back[2..].as_ptr();
            let (orig, sl) = (back.clone(), &mut back[2..n + 2]);
            scope(sl, |mut c| {
                let mut go = |c: &mut Container<'_, &mut [$t]>, last: bool| {
                    case!("split_container_at_pointer", n, k, sz, last);
                    let (i, j) = (sub(c, k, k).first(), sub(c, k, n).nonempty().ok().map(|r| r.first()));
                    if !last { c.split_container_at_pointer(i, |c1, r1, c2, r2| {
                        eq!((c1.len(), c2.len()), (k, n - k), "lengths"); eq!((pr(r1, b, n), pr(r2, b, n)), ((0, k), (k, n)), "ranges");
                        eq!((c1[..].as_ptr(), c2[..].as_ptr()), (b, b.wrapping_add(k)), "addresses");
                        let (l1, l2) = (c1[r1].len(), c2[r2].len()); eq!((l1, l2), (k, n - k), "slices");
                    }) } else if let Some(i) = j { let out = c.split_container_at_pointer(i, |mut c1, r1, mut c2, r2| {
                        eq!((c1.len(), c2.len()), (k, n - k), "lengths"); eq!((pr(r1, b, n), pr(r2, b, n)), ((0, k), (k, n)), "ranges");
                        { let f = &c2[r2.first()]; eq!(f as *const $t, b.wrapping_add(k), "first of the second part"); }
                        eq!(c1[..].as_mut_ptr() as *const $t, b, "first part"); eq!(c2[..].as_mut_ptr() as *const $t, b.wrapping_add(k), "second part");
                        c1[..].iter_mut().chain(c2[..].iter_mut()).for_each(|x| *x = x.clone()); 41
                    }); eq!(out, 41, "result of the closure"); }
                };
                go(&mut c, false); go(&mut c, true);
            });
            eq!(back, orig, "storage");
        }} }
        sp!(u32, |k| k as u32); sp!([u8; 3], |k| [k as u8; 3]);
    } }
}
