//! The same questions over element types of many sizes and alignments, and lengths around the round numbers.
use crate::particles::each_range;
use crate::rt::*;
use indexing::container_traits::*;
use indexing::pointer::*;
use indexing::proof::Provable;
use indexing::{algorithms as al, scope, Container, Index, Range};
use std::cell::RefCell;
use std::cmp::{min, Ordering};
use std::fmt::Debug;
use std::mem::size_of;

/// an element: a key, an identity that the order does not see, and padding that must survive
pub trait El2: Copy + Ord + Debug { fn mk(key: u32, id: usize) -> Self; fn key(&self) -> u32; fn raw(&self) -> &[u8]; fn cap() -> usize { if size_of::<Self>() < 4 { 255 } else { 60000 } } }
macro_rules! kind { ($n:ident, $t:ty) => {
    #[derive(Clone, Copy)] #[repr(transparent)] pub struct $n<const N: usize>([$t; N]);
    impl<const N: usize> El2 for $n<N> {
        fn mk(key: u32, id: usize) -> Self {
            let mut x = $n([0 as $t; N]);
            let s = size_of::<Self>();
            let b = unsafe { std::slice::from_raw_parts_mut(&mut x as *mut Self as *mut u8, s) };
            for (k, y) in b.iter_mut().enumerate() { *y = (key as usize * 31 + id * 17 + k * 7) as u8 }
            if s < 4 { b[0] = key as u8; if s > 1 { b[1] = id as u8 } if s > 2 { b[2] = (id >> 8) as u8 } }
            else { b[0] = key as u8; b[1] = (key >> 8) as u8; b[2] = id as u8; b[3] = (id >> 8) as u8; if s >= 8 { b[4] = (id >> 16) as u8 } }
            x
        }
        fn key(&self) -> u32 { let b = self.raw(); if b.len() < 4 { b[0] as u32 } else { b[0] as u32 | (b[1] as u32) << 8 } }
        fn raw(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self as *const Self as *const u8, size_of::<Self>()) } }
    }
    impl<const N: usize> PartialEq for $n<N> { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
    impl<const N: usize> Eq for $n<N> {}
    impl<const N: usize> PartialOrd for $n<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.key().partial_cmp(&o.key()) } }
    impl<const N: usize> Ord for $n<N> { fn cmp(&self, o: &Self) -> Ordering { self.key().cmp(&o.key()) } }
    impl<const N: usize> Debug for $n<N> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.key()) } }
} }
kind!(B, u8); kind!(H, u16); kind!(W, u32); kind!(D, u64); kind!(Q, u128);
type Main = W<2>;
/// all the kinds of elements; the first is looked at most closely
macro_rules! each { ($m:ident, $g:expr, $w:expr; $($t:ty),*) => {{ $($m::<$t>($g, $w);)* }} }
macro_rules! kinds { ($m:ident, $g:expr, $w:expr) => { each!($m, $g, $w; Main, B<1>, B<2>, B<3>, H<1>, W<1>, B<5>, H<3>, D<1>, W<3>, D<2>, Q<1>, B<17>, D<3>, D<4>, D<5>, D<8>, D<9>, D<17>, D<64>) } }
macro_rules! few { ($m:ident, $g:expr, $w:expr) => { each!($m, $g, $w; Main, B<1>, B<3>, D<1>, Q<1>, D<9>, D<64>) } }
fn is_main<T: 'static>() -> bool { std::any::TypeId::of::<T>() == std::any::TypeId::of::<Main>() }
fn raws<T: El2>(v: &[T]) -> &[u8] { unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * size_of::<T>()) } }
/// the same elements byte for byte
fn same<T: El2>(got: &[T], want: &[T], what: &str) {
    if bounds() { return }
    eq!(got.len(), want.len(), "{}: length", what);
    if raws(got) != raws(want) { let k = (0..got.len()).find(|&k| got[k].raw() != want[k].raw()); fail(format!("{}: differs first at {:?} of {} ({}-byte elements)", what, k, got.len(), size_of::<T>())) }
}
/// the same elements in some order
fn permuted<T: El2>(got: &[T], want: &[T], what: &str) {
    let (mut a, mut b): (Vec<&[u8]>, Vec<&[u8]>) = (got.iter().map(|x| x.raw()).collect(), want.iter().map(|x| x.raw()).collect());
    a.sort(); b.sort();
    ck!(a == b, "{}: the elements are not those of the input ({} elements of {} bytes)", what, got.len(), size_of::<T>());
}
const ROUND: [usize; 38] = [48, 49, 50, 51, 63, 64, 65, 66, 96, 99, 100, 101, 127, 128, 129, 130, 150, 199, 200, 201, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 768, 800, 1000, 1001, 1023, 1024, 1025];
const LONG: [usize; 13] = [2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 20000];
const FEW: [usize; 18] = [0, 1, 2, 3, 5, 8, 16, 17, 25, 33, 64, 65, 100, 129, 256, 257, 300, 513];
fn lens(main: bool, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if main { (0..=40).chain(ROUND.iter().cloned()).chain(LONG.iter().cloned()).collect() } else { FEW.iter().cloned().chain([1024, 1025, 4097].iter().cloned()).collect() };
    v.retain(|&n| n <= most); v
}
const PATTERNS: usize = 24;
fn keys(g: &mut Rng, n: usize, p: usize, cap: usize) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).map(|_| g.below(match p { 1 => 2, 2 => n / 8 + 2, _ => 4 * n + 3 }.min(cap)) as u32).collect();
    if p >= 3 { v.sort() }
    let m = |g: &mut Rng| g.below(n + (n == 0) as usize);
    if n > 1 { match p {
        4 => v.reverse(),
        5 => { let h = n / 2; v[h..].reverse() }
        6 => { let k = v.len() - 1; v[k] = 0 }
        7 => v[0] = cap as u32 - 1,
        8 => { let (i, j) = (m(g), m(g)); v.swap(i, j) }
        9 => { let k = m(g); v.rotate_left(k) }
        10 => for (k, x) in v.iter_mut().enumerate() { *x = (k % 7) as u32 },
        11 => for x in v.iter_mut() { *x = 4 },
        12 => { let w = v.clone(); for k in 0..n { v[k] = w[if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }] } }
        13 => for k in 0..n / 2 { v.swap(2 * k, 2 * k + 1) },
        14 => for k in 0..n - 1 { if g.below(4) == 0 { v.swap(k, min(n - 1, k + 1 + g.below(3))) } },
        15 => { let h = n - n / 8 - 1; let w = v[h..].to_vec(); for k in h..n { v[k] = w[(k - h) * 5 % w.len()] / 2 } }
        16 => { v.reverse(); v[n - 1] = v[0] }
        17 => { let x = v[n / 2]; v[0] = x; v[n - 1] = x }
        18 => { let (i, j) = (m(g), m(g)); let x = v.remove(i); v.insert(j, x) }
        19 => { v.swap(n - 2, n - 1) }
        20 => { let h = n / 2; v[h..].reverse(); v[..h].reverse() }
        21 => { v.reverse(); let k = n / 3; v[k..].reverse() }
        22 => { for x in v.iter_mut() { *x &= !7 } let k = m(g); v.rotate_left(k) }
        23 => { v.reverse(); for k in 0..n / 9 { let j = m(g); v.swap(9 * k, j) } }
        _ => {}
    } }
    v
}
fn make<T: El2>(k: &[u32]) -> Vec<T> { k.iter().enumerate().map(|(i, &x)| T::mk(x, i)).collect() }

// ---------------------------------------------------------------- C13, C14, C21
fn quick<T: El2>(g: &mut Rng, n: usize, p: usize, what: usize) {
    let v: Vec<T> = make(&keys(g, n, p, T::cap()));
    let mut want = v.clone(); want.sort();
    macro_rules! t { ($f:expr, $w:expr) => {{ case!(concat!("zoo ", $w), n, p, size_of::<T>()); let mut x = v.clone(); $f(&mut x[..]);
        if what & 1 == 1 { let bad = (0..n).find(|&k| x[k].key() != want[k].key()); ck!(bad.is_none(), "{} leaves {} elements of {} bytes (pattern {}) wrong at {:?}", $w, n, size_of::<T>(), p, bad); }
        permuted(&x, &v, $w); }} }
    t!(al::quicksort_range, "quicksort_range"); t!(al::quicksort_prange, "quicksort_prange"); t!(al::quicksort_bounds, "quicksort_bounds");
}
/// what: 1 sorted, 2 stable and in step
fn insertion<T: El2>(g: &mut Rng, n: usize, p: usize, what: usize) {
    let v: Vec<T> = make(&keys(g, n, p, T::cap()));
    let mut want = v.clone(); want.sort();
    let judge = |x: &[T], w: &str, stable: bool| {
        if what & 1 == 1 { let bad = (0..n).find(|&k| x[k].key() != want[k].key()); ck!(bad.is_none(), "{} leaves {} elements of {} bytes (pattern {}) wrong at {:?}", w, n, size_of::<T>(), p, bad); }
        permuted(x, &v, w);
        if stable && what & 2 == 2 { same(x, &want, w) }
    };
    macro_rules! t { ($f:expr, $w:expr, $s:expr) => {{ case!(concat!("zoo ", $w), n, p, size_of::<T>()); let mut x = v.clone(); $f(&mut x[..]); judge(&x, $w, $s) }} }
    t!(|x: &mut [T]| al::insertion_sort_indexes(x, |a, b| a < b), "insertion_sort_indexes", true);
    t!(|x: &mut [T]| al::insertion_sort_ranges(x, |a, b| a < b), "insertion_sort_ranges", true);
    t!(|x: &mut [T]| al::insertion_sort_pointerindex(x, |a, b| a < b), "insertion_sort_pointerindex", true);
    t!(|x: &mut [T]| al::insertion_sort_rust(x, |a, b| a < b), "insertion_sort_rust", true);
    t!(|x: &mut [T]| al::insertion_sort_prange_lower(x, |a, b| a < b), "insertion_sort_prange_lower", false);
    if what & 2 == 2 {
        macro_rules! pair { ($u:ty, $mk:expr, $same:expr) => {{
            case!("zoo insertion_sort2_indexes", n, p, size_of::<T>(), size_of::<$u>());
            let (mut x, mut u): (Vec<T>, Vec<$u>) = (v.clone(), (0..n).map($mk).collect());
            al::insertion_sort2_indexes(&mut x, &mut u, |a, b| a < b);
            judge(&x, "insertion_sort2_indexes", true);
            let mut pairs: Vec<(T, $u)> = v.iter().cloned().zip((0..n).map($mk)).collect(); pairs.sort_by(|a, b| a.0.cmp(&b.0));
            let bad = (0..n).find(|&k| !$same(&pairs[k].1, &u[k])); ck!(bad.is_none(), "the second slice ({}-byte elements) is not in step at {:?} of {} (pattern {})", size_of::<$u>(), bad, n, p);
        }} }
        pair!(u32, |k| !(k as u32), |a: &u32, b: &u32| a == b);
        if n < 300 { pair!(T, |k| T::mk(k as u32 & 255, k), |a: &T, b: &T| a.raw() == b.raw()); pair!(Box<usize>, |k| Box::new(k), |a: &Box<usize>, b: &Box<usize>| a == b); pair!(D<9>, |k| D::<9>::mk(k as u32, k), |a: &D<9>, b: &D<9>| a.raw() == b.raw()); }
    }
}
fn sorts_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        if what & 1 == 1 { for n in lens(main, if main { 20000 } else { 4097 }) { for p in 0..PATTERNS { if !main && !deep() && g.below(3) > 0 { continue } if n > 4100 && p == 11 { continue } if n > 1100 && !deep() && g.below(if n > 4100 { 5 } else { 2 }) > 0 { continue } quick::<T>(g, n, p, what) } } }
        for n in lens(main, if main { 1025 } else { 300 }) { for p in 0..PATTERNS { if (!main || n > 300) && !deep() && g.below(4) > 0 { continue } insertion::<T>(g, n, p, what) } }
    }
pub fn sorts(what: usize) {
    let mut g = rng(1300);
     kinds!(sorts_, &mut g, what);
}
// ---------------------------------------------------------------- C15, C17
fn heaps_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        for n in lens(main, 20000) { for p in 0..PATTERNS { if !main && g.below(3) > 0 { continue }
            let v: Vec<T> = make(&keys(g, n, p, T::cap()));
            case!("zoo heapify", n, p, size_of::<T>());
            let mut x = v.clone(); al::heapify(&mut x);
            for k in 1..n { ck!(x[(k - 1) / 2].key() <= x[k].key(), "element {} is greater than its child {} ({} elements of {} bytes, pattern {})", (k - 1) / 2, k, n, size_of::<T>(), p) }
            permuted(&x, &v, "heapify");
        } }
    }
pub fn heaps() {
    let mut g = rng(1500);
     kinds!(heaps_, &mut g, 0);
}
fn merges_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        let ls: Vec<usize> = if main { vec![0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 70, 100, 128, 129, 200, 256, 257, 300, 512, 513, 1000, 1025] } else { vec![0, 1, 2, 7, 16, 33, 64, 100, 257] };
        for &l in &ls { for &r in &ls { if l + r == 0 { continue } for shape in 0..if main { 8 } else { 4 } {
            // how the two parts lie with respect to each other
            let n = l + r; let cap = T::cap();
            let mut k: Vec<u32> = (0..n).map(|_| g.below((2 * n + 2).min(cap / 3)) as u32).collect();
            let off = (cap / 3) as u32;
            match shape { 1 => for x in &mut k[..l] { *x += off }, 2 => for x in &mut k[l..] { *x += off }, 3 => for x in &mut k { *x %= 3 }, 4 => for (i, x) in k.iter_mut().enumerate() { if i < l / 2 { *x += off } },
                5 => for (i, x) in k.iter_mut().enumerate() { if i < l { if i % 9 == 0 { *x = 0 } else { *x += off } } }, 6 => for (i, x) in k.iter_mut().enumerate() { if i >= l { if i % 9 != 0 { *x = 0 } else { *x += off } } },
                7 => { let s = g.below(n); for (i, x) in k.iter_mut().enumerate() { if i >= s { *x += off } } } _ => {} }
            k[..l].sort(); k[l..].sort();
            let v: Vec<T> = make(&k);
            let mut want = v.clone(); want.sort();
            let buf: Vec<T> = (0..l + g.below(3)).map(|i| T::mk(7 + i as u32 % 200, 5 * i)).collect();
            for f in 0..2 {
                case!("zoo merge", n, l, shape, f, size_of::<T>());
                let (mut x, mut b) = (v.clone(), buf.clone());
                let ok = if f == 0 { al::merge_internal_indices(&mut x, l, &mut b) } else { al::merge_internal_ranges(&mut x, l, &mut b) };
                ck!(ok.is_ok(), "error for left part {}, data {}, buffer {}", l, n, buf.len());
                let bad = (0..n).find(|&i| x[i].key() != want[i].key()); ck!(bad.is_none(), "merge {} of {} and {} elements of {} bytes is wrong at {:?}", f, l, r, size_of::<T>(), bad);
                permuted(&x, &v, "data"); permuted(&b, &buf, "buffer"); same(&b[l..], &buf[l..], "buffer beyond the used prefix");
            }
        } } }
    }
pub fn merges() {
    let mut g = rng(1700);
     kinds!(merges_, &mut g, 0);
}
// ---------------------------------------------------------------- C16
fn searches_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        for n in lens(main, 20000) { for shape in 0..3 {
            let cap = T::cap();
            let mut k: Vec<u32> = (0..n).map(|i| match shape { 0 => (2 * i + 1).min(cap - 1), 1 => g.below(cap), _ => g.below(5) * 3 + 1 } as u32).collect(); k.sort();
            let v: Vec<T> = make(&k);
            let mut xs: Vec<u32> = vec![0, 1, cap as u32]; for _ in 0..8 { if n > 0 { let i = g.below(n); xs.push(k[i]); xs.push(k[i].saturating_sub(1)); xs.push(k[i] + 1) } }
            if n > 0 { xs.push(k[0]); xs.push(k[n - 1]); xs.push(k[n / 2]) }
            for &x in &xs {
                if x > cap as u32 { continue }
                case!("zoo search", n, shape, x, size_of::<T>());
                let e = T::mk(x, 9);
                let want = k.iter().take_while(|&&y| y < x).count();
                eq!(al::lower_bound(&v, &e), want, "lower_bound"); eq!(al::lower_bound_prange(&v, &e), want, "lower_bound_prange"); eq!(al::lower_bound_raw_ptr(&v, &e), want, "lower_bound_raw_ptr"); eq!(al::lower_bound_pslice(&v, |y| *y < e), want, "lower_bound_pslice");
                let bs = |r: Result<usize, usize>, lo: usize, hi: usize, w: &str| match r { Ok(i) => ck!(i >= lo && i < hi && k[i] == x, "{} answers Ok({}) for {} in {}..{}", w, i, x, lo, hi), Err(i) => { ck!(!k[lo..hi].contains(&x), "{} misses {}", w, x); eq!(i, want.max(lo).min(hi), "insertion point by {}", w) } };
                bs(al::binary_search(&v, &e), 0, n, "binary_search"); bs(al::binary_search_by(&v, |y| y.cmp(&e)), 0, n, "binary_search_by"); bs(al::binary_search_by_prange(&v, |y| y.cmp(&e)), 0, n, "binary_search_by_prange"); bs(al::binary_search_by_pslice(&v, |y| y.cmp(&e)), 0, n, "binary_search_by_pslice");
                if n < 600 { scope(&v[..], |c| for &(a, z) in &[(0, n), (n / 3, n), (0, n - n / 3), (n / 4, n / 2), (n, n)] {
                    let (r, b) = (crate::pointers::sub(&c, a, z), v.as_ptr());
                    let p = |i: *const T| (i as usize).wrapping_sub(b as usize) / size_of::<T>();
                    let w = want.max(a).min(z);
                    eq!(p(al::lower_bound_prange_(r, &c, |y| *y < e).ptr()), w, "lower_bound_prange_ in {}..{}", a, z); eq!(p(al::lower_bound_pslice_(r.into(), &c, |y| *y < e).ptr()), w, "lower_bound_pslice_ in {}..{}", a, z);
                    bs(al::binary_search_by_prange_(r, &c, |y| y.cmp(&e)).map(|i| p(i.ptr())).map_err(|i| p(i.ptr())), a, z, "binary_search_by_prange_"); bs(al::binary_search_by_pslice_(r.into(), &c, |y| y.cmp(&e)).map(|i| p(i.ptr())).map_err(|i| p(i.ptr())), a, z, "binary_search_by_pslice_");
                }) }
            }
        } }
    }
pub fn searches() {
    let mut g = rng(1600);
     kinds!(searches_, &mut g, 0);
}
// ---------------------------------------------------------------- C11
fn scan_all<'id, T: El2, A: Contiguous<Item = T>, M>(c: &Container<'id, A, M>, v: &[T], starts: &[usize], tag: &'static str) {
    let n = v.len();
    let (base, z) = (c[..].as_ptr() as usize, size_of::<T>());
    let tr: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let f = |x: &T| { tr.borrow_mut().push((x as *const T as usize).wrapping_sub(base) / z); x.key() == 1 };
    let up = |s: usize, e: usize| (s..e).take_while(|&k| v[k].key() == 1).count();
    let down = |s: usize, e: usize| (s..e).rev().take_while(|&k| v[k].key() == 1).count();
    let asked = |want: Vec<usize>, w: &str| { let got = tr.borrow_mut().split_off(0); if got != want { let k = (0..got.len().min(want.len())).find(|&k| got[k] != want[k]); ck!(false, "{}: {} elements were asked, expected {}; first difference at {:?}", w, got.len(), want.len(), k) } };
    for &s in starts {
        if s < n { if let Ok(i) = c.vet(s) {
            case!(tag, n, s, z, 1); let h = up(s + 1, n);
            eq!(ir(&c.scan_from(i, f), n), (s, s + 1 + h), "scan_from"); asked((s + 1..min(n, s + 2 + h)).collect(), "scan_from");
            case!(tag, n, s, z, 2); let h = down(0, s);
            eq!(ir(&c.scan_from_rev(i, f), n), (s - h, s + 1), "scan_from_rev"); asked((s.saturating_sub(h + 1)..s).rev().collect(), "scan_from_rev");
        } }
        for &e in &[n, n.saturating_sub(1), s + 1, s] { if s <= e && e <= n { if let Ok(r) = c.vet_range(s..e) {
            case!(tag, n, s, e, z, 3); let h = up(s, e);
            let (a, b) = c.scan_range(r, f); eq!((ir(&a, n), ir(&b, n)), ((s, s + h), (s + h, e)), "scan_range"); asked((s..min(e, s + h + 1)).collect(), "scan_range");
        } } }
    }
}
fn scan_ptr<'id, T: El2, A: Contiguous<Item = T>>(c: &Container<'id, A>, v: &[T], starts: &[usize], tag: &'static str) {
    let n = v.len();
    let (base, z) = (v.as_ptr() as usize, size_of::<T>());
    let tr: RefCell<Vec<usize>> = RefCell::new(vec![]);
    let f = |x: &T| { tr.borrow_mut().push((x as *const T as usize).wrapping_sub(base) / z); x.key() == 1 };
    let up = |s: usize, e: usize| (s..e).take_while(|&k| v[k].key() == 1).count();
    let down = |s: usize, e: usize| (s..e).rev().take_while(|&k| v[k].key() == 1).count();
    let asked = |want: Vec<usize>, w: &str| { let got = tr.borrow_mut().split_off(0); ck!(got == want, "{}: {} elements were asked, expected {}", w, got.len(), want.len()) };
    let p = |r: PRange<'id, T>| { let s = (r.first().ptr() as usize).wrapping_sub(base) / z; (s, (r.past_the_end().ptr() as usize).wrapping_sub(base) / z) };
    for &s in starts { for &e in &[n, n.saturating_sub(1), s] { if s > e || e > n { continue }
        let r = crate::pointers::sub(c, s, e); if p(r) != (s, e) { continue }
        case!(tag, n, s, e, z, 4); let h = up(s, e); let (a, b) = c.scan_pointer_range(r, f); eq!((p(a), p(b)), ((s, s + h), (s + h, e)), "scan_pointer_range"); asked((s..min(e, s + h + 1)).collect(), "scan_pointer_range");
        case!(tag, n, s, e, z, 5); let h = down(s, e); let (a, b) = c.scan_pointer_range_rev(r, f); eq!((p(a), p(b)), ((s, e - h), (e - h, e)), "scan_pointer_range_rev"); asked((s.max((e - h).saturating_sub(1))..e).rev().collect(), "scan_pointer_range_rev");
        if let Ok(q) = r.nonempty() { case!(tag, n, s, e, z, 6); let i = q.first(); let h = down(0, s); let x = c.scan_tail_(i, f); eq!(p(x.no_proof()), (s - h, s + 1), "scan_tail_"); asked((s.saturating_sub(h + 1)..s).rev().collect(), "scan_tail_"); }
    } }
}
fn scans_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        let b1 = size_of::<T>() == 1;
        for n in lens(main || b1, if main || b1 { 1025 } else { 300 }) { if n == 0 { continue }
            let ats: Vec<usize> = if n <= 66 || (main && n < 140) { (0..=n).collect() } else { vec![0, 1, n / 2, n / 3, n - 1, n, n - 2, g.below(n), g.below(n), n & !7, n & !63] };
            for &at in &ats {
                let v: Vec<T> = (0..n).map(|k| T::mk(if k == at || (k > at && g.below(3) == 0 && at % 3 == 0) { 0 } else { 1 }, k)).collect();
                let starts = if n < 20 { (0..n).collect() } else { vec![0, 1, at.saturating_sub(1), at.min(n - 1), (at + 1).min(n - 1), n - 1, n / 2, g.below(n)] };
                scope(&v[..], |c| { scan_all(&c, &v, &starts, "zoo scan &[T]"); scan_ptr(&c, &v, &starts[..starts.len().min(4)], "zoo pointer scan &[T]") });
                if at % 5 == 0 || at >= n - 1 { let mut w = v.clone(); scope(&mut w[..], |c| scan_all(&c, &v, &starts, "zoo scan &mut [T]")); scope(w, |c| scan_all(&c.only_index(), &v, &starts, "zoo scan Vec")); let w = v.clone(); scope(&w, |c| scan_ptr(&c, &w, &[0, n - 1], "zoo pointer scan &Vec")); }
            }
        }
    }
pub fn scans() {
    let mut g = rng(1100);
     kinds!(scans_, &mut g, 0);
}
// ---------------------------------------------------------------- C12
fn moves_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        for n in lens(main, if main { 5000 } else { 1025 }) { if n == 0 { continue }
            let v: Vec<T> = (0..n).map(|k| T::mk(k as u32 & 255, k)).collect();
            let mut pairs: Vec<(usize, usize)> = vec![(0, n), (1, n), (0, n - 1), (n / 2, n), (0, n / 2), (n / 2, (n / 2 + 2).min(n)), (n - 1, n), (0, 1), (0, 2.min(n)), (n.saturating_sub(2), n), (3.min(n), n), (n / 3, n - n / 3)];
            for _ in 0..4 { let (a, b) = (g.below(n + 1), g.below(n + 1)); pairs.push((a.min(b), a.max(b))) }
            pairs.retain(|p| p.0 <= p.1);
            for st in 0..2 {
                let (mut x, mut w) = (v.clone(), v.clone());
                macro_rules! body { ($c:expr) => {{ let c = $c; for &(s, e) in &pairs { let r = match c.vet_range(s..e) { Ok(r) => r, _ => continue };
                    case!("zoo rotate1_up", n, s, e, size_of::<T>(), st); c.rotate1_up(r); if s < e { w[s..e].rotate_right(1) } same(&c[c.range()], &w, "rotate1_up");
                    if let Ok(q) = r.nonempty() { case!("zoo rotate1_down", n, s, e, size_of::<T>(), st); c.rotate1_down(q); w[s..e].rotate_left(1); same(&c[c.range()], &w, "rotate1_down"); c.rotate1_down(r); w[s..e].rotate_left(1); same(&c[c.range()], &w, "rotate1_down");
                        case!("zoo swap", n, s, e, size_of::<T>(), st); c.swap(q.first(), q.last()); w.swap(s, e - 1); same(&c[c.range()], &w, "swap"); c.swap(q.upper_middle_(), q.first()); w.swap(s + (e - s - 1) / 2, s); same(&c[c.range()], &w, "swap"); }
                    let (a, b) = r.split_in_half(); let m = s + (e - s) / 2; let base = c[c.range()].as_ptr() as usize; let z = size_of::<T>();
                    case!("zoo index_twice", n, s, e, z, st);
                    match c.index_twice(a, b) { Ok((x, y)) => eq!((x.as_ptr() as usize, x.len(), y.as_ptr() as usize, y.len()), (base + z * s, m - s, base + z * m, e - m), "index_twice"), Err(_) => ck!(false, "index_twice refuses adjacent halves") }
                    ck!(c.index_twice(b, a).is_ok() == (e <= s), "index_twice, reversed");
                    case!("zoo zip_mut_raw", n, s, e, z, st);
                    let mut seen = vec![]; c.zip_mut_raw(b, a, |p, q| seen.push((p as usize, q as usize)));
                    let want: Vec<(usize, usize)> = (0..m - s).map(|k| (base + z * (m + k), base + z * (s + k))).collect(); ck!(seen == want, "zip_mut_raw visits {} pairs", seen.len());
                } }} }
                if st == 0 { scope(&mut x[..], |mut c| { body!(&mut c); let c = &mut c; for &(s, e) in &pairs { if s < e { if let Ok(q) = crate::pointers::sub(c, s, e).nonempty() {
                    case!("zoo rotate1_prange", n, s, e, size_of::<T>()); c.rotate1_prange(q); w[s..e].rotate_right(1); same(&c[c.range()], &w, "rotate1_prange");
                    case!("zoo swap_ptr", n, s, e, size_of::<T>()); c.swap_ptr(q.last(), q.first()); w.swap(s, e - 1); same(&c[c.range()], &w, "swap_ptr"); } } } }) }
                else { scope(&mut x, |c| { let mut c = c.only_index(); body!(&mut c) }) }
                same(&x, &w, "in the end");
            }
        }
    }
pub fn moves() {
    let mut g = rng(1200);
     kinds!(moves_, &mut g, 0);
}
trait Mid<'id> { fn upper_middle_(&self) -> Index<'id>; }
impl<'id> Mid<'id> for Range<'id, indexing::NonEmpty> { fn upper_middle_(&self) -> Index<'id> { self.lower_middle() } }
// ---------------------------------------------------------------- C20
fn copies_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        let main = is_main::<T>();
        let ls: Vec<usize> = if main { (0..=20).chain([31, 32, 33, 35, 63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 513, 1000, 1001, 1024, 1025].iter().cloned()).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 9, 17, 33, 64, 65, 101, 257] };
        for &n in &ls { for &m in &ls {
            let xs: Vec<T> = (0..n + 2).map(|k| T::mk(k as u32 & 255, k)).collect(); let ys: Vec<T> = (0..m + 2).map(|k| T::mk(k as u32 & 255, 777 + k)).collect();
            let l = min(n, m);
            let mut want = ys.clone(); want[1..1 + l].copy_from_slice(&xs[1..1 + l]);
            let z = size_of::<T>();
            macro_rules! t { ($f:expr, $w:expr) => {{ case!(concat!("zoo ", $w), n, m, z); let mut d = ys.clone(); $f(&xs[1..n + 1], &mut d[1..m + 1]); same(&d, &want, $w) }} }
            t!(al::copy, "copy"); t!(al::copy_prange, "copy_prange");
            case!("zoo zip", n, m, z);
            let (b1, b2) = (xs[1..].as_ptr() as usize, ys[1..].as_ptr() as usize);
            let pairs: Vec<(usize, usize)> = (0..l).map(|k| (b1 + z * k, b2 + z * k)).collect();
            scope(&xs[1..n + 1], |c| scope(&ys[1..m + 1], |d| {
                let mut seen = vec![]; zip(c.pointer_range(), &c, d.pointer_slice(), &d, |p, q| seen.push((p as *const T as usize, q as *const T as usize))); ck!(seen == pairs, "zip visits {} pairs of {} and {} elements of {} bytes", seen.len(), n, m, z);
                let mut seen = vec![]; zip(c.pointer_slice(), &c, d.pointer_range(), &d, |p, q| seen.push((p as *const T as usize, q as *const T as usize))); ck!(seen == pairs, "zip visits {} pairs of {} and {} elements of {} bytes", seen.len(), n, m, z);
            }));
            let mut d = ys.clone(); case!("zoo zip mut", n, m, z);
            scope(&xs[1..n + 1], |c| scope(&mut d[1..m + 1], |mut e| { let r = e.pointer_range(); zip(r, &mut e, c.pointer_range(), &c, |q, p| *q = *p) })); same(&d, &want, "zip with a mutable first container");
        } }
        for &n in &ls { let mut ks = vec![0, n, n / 2, n.saturating_sub(1), 1.min(n)]; if n < 20 { ks = (0..=n).collect() } for &k in &ks {
            let mut v: Vec<T> = (0..n).map(|k| T::mk(k as u32 & 255, k)).collect(); let w = v.clone(); let z = size_of::<T>();
            case!("zoo split_container_at_pointer", n, k, z);
            let base = v.as_ptr() as usize;
            scope(&mut v[..], |mut c| { let i = crate::pointers::sub(&c, k, n).first(); c.split_container_at_pointer(i, |mut c1, r1, mut c2, r2| {
                let a = |r: *const T| (r as usize).wrapping_sub(base) / z;
                eq!((c1.len(), c2.len(), r1.len(), r2.len()), (k, n - k, k, n - k), "lengths"); eq!((a(r1.first().ptr()), a(r2.first().ptr())), (0, k), "ranges");
                eq!((a(c1[..].as_mut_ptr()), a(c2[..].as_mut_ptr())), (0, k), "parts");
            }) });
            same(&v, &w, "storage");
        } }
    }
pub fn copies() {
    let mut g = rng(2000);
     kinds!(copies_, &mut g, 0);
    let ls: Vec<usize> = (0..=40).chain(ROUND.iter().cloned()).collect();
    for &n in &ls { for &m in &ls {
        case!("zoo dot", n, m);
        let xs: Vec<i32> = (0..n).map(|_| g.below(1000) as i32 - 500).collect(); let ys: Vec<i32> = (0..m).map(|_| g.below(1000) as i32 - 300).collect();
        let want: i32 = xs.iter().zip(&ys).map(|(x, y)| x * y).sum();
        eq!(al::zip_dot_i32(&xs, &ys), want, "zip_dot_i32"); eq!(al::zip_dot_i32_prange(&xs, &ys), want, "zip_dot_i32_prange");
    } }
}
// ---------------------------------------------------------------- C01, C03, C05, C06, C09, C10, C19
macro_rules! containers { ($t:ty, $n:expr, $c:ident, $body:expr) => {{
    let mut v: Vec<$t> = (0..$n).map(|k| <$t>::mk(k as u32 & 255, k)).collect();
    scope(&v[..], |$c| $body); scope(&mut v[..], |$c| $body); scope(&v, |$c| $body); scope(&mut v, |c| { let $c = c.only_index(); $body }); scope(v, |$c| $body);
}} }
fn c01_<T: El2 + 'static>(g: &mut Rng, what: usize) { for &n in &[0usize, 1, 2, 5, 64, 300, 1025, 5000] { containers!(T, n, c, crate::particles::vet_all(&c, n, std::any::type_name::<T>())) } }
pub fn c01() { let mut g = rng(6); few!(c01_, &mut g, 0); }
fn c03_<T: El2 + 'static>(g: &mut Rng, what: usize) { for &n in &[0usize, 1, 2, 3, 70, 300] { containers!(T, n, c, each_range(&c, n, |r, s, e| { crate::particles::cuts(&c, n, r, s, e); if let Ok(q) = r.nonempty() { crate::particles::cuts_ne(&c, n, q, s, e) } })) } }
pub fn c03() { let mut g = rng(259); few!(c03_, &mut g, 0); }
fn c05_<T: El2 + 'static>(g: &mut Rng, what: usize) { for &n in &[0usize, 1, 2, 3, 300] { containers!(T, n, c, crate::particles::steps_(&c, n, false)) } }
pub fn c05() { let mut g = rng(588); few!(c05_, &mut g, 0); }
fn c06_<T: El2 + 'static>(g: &mut Rng, what: usize) { for &n in &[0usize, 1, 2, 3, 5, 17, 64, 65, 130] {
        if n < 66 || is_main::<T>() { crate::storage::access(n, |k| T::mk(k as u32 & 255, k)); }
        // mutable accesses: where and how much
        let mut v: Vec<T> = (0..n).map(|k| T::mk(k as u32 & 255, k)).collect();
        let z = size_of::<T>();
        macro_rules! muts { ($c:expr, $b:expr) => {{ let (c, b) = ($c, $b);
            macro_rules! at { ($m:expr, $s:expr, $l:expr, $w:expr) => {{ let m: &mut [T] = $m; eq!(((m.as_ptr() as usize).wrapping_sub(b) as isize, m.len()), (($s * z) as isize, $l), "{} mut", $w) }} }
            for k in 0..n { case!("zoo mutable access", n, k, z); if let Ok(i) = c.vet(k) { at!(std::slice::from_mut(&mut c[i]), k, 1, "[i]"); at!(&mut c[i..], k, n - k, "[i..]"); at!(&mut c[..i], 0, k, "[..i]"); } }
            let mut rs = vec![]; each_range(c, n, |r, s, e| rs.push((r, s, e)));
            for (r, s, e) in rs { case!("zoo mutable access", n, s, e, z); at!(&mut c[r], s, e - s, "[r]"); at!(&mut c[r.first()..], s, n - s, "[edge..]"); at!(&mut c[..r.past_the_end()], 0, e, "[..edge]"); if let Ok(q) = r.nonempty() { at!(&mut c[q], s, e - s, "[r]"); at!(std::slice::from_mut(&mut c[q.last()]), e - 1, 1, "[last]") } }
        }} }
        let b = v.as_ptr() as usize;
        scope(&mut v[..], |mut c| { muts!(&mut c, b); let m = &mut c[..]; eq!((m.as_ptr() as usize, m.len()), (b, n), "[..] mut") });
        scope(&mut v, |mut c| muts!(&mut c, b)); scope(&mut &mut v, |c| muts!(&mut c.only_index(), b)); scope(v, |mut c| muts!(&mut c, b));
    } }
pub fn c06() {
    let mut g = rng(805); kinds!(c06_, &mut g, 0);
}
fn c09_<T: El2 + 'static>(g: &mut Rng, what: usize) { for n in lens(is_main::<T>(), 1025) {
        let v: Vec<T> = (0..n).map(|k| T::mk(k as u32 & 255, k)).collect();
        let mut ps: Vec<usize> = vec![0, 1, 2, n / 2, n - n / 3, n.saturating_sub(2), n.saturating_sub(1), n, g.below(n + 1)]; ps.retain(|&p| p <= n);
        for &p in &ps { for spare in 0..3 {
            let mk = || { let mut x = Vec::with_capacity(n + spare); x.extend_from_slice(&v); x };
            case!("zoo insert and push", n, p, spare, size_of::<T>());
            macro_rules! t { ($arr:expr, $w:expr) => { scope($arr, |c| { let mut c = c.only_index(); let mut w = v.clone();
                let old: Vec<Index> = if n < 130 { c.range().into_iter().collect() } else { c.vet(n / 2).into_iter().collect() };
                if let Ok(r) = c.vet_range(p..n) { c.insert(r.first(), T::mk(200, 9)); w.insert(p, T::mk(200, 9)); }
                same(&c[..], &w, "insert");
                for k in 0..3 { let i = c.push(T::mk(201 + k, 9)); w.push(T::mk(201 + k, 9)); eq!(ii(&i, w.len()), w.len() - 1, "index returned by push"); same(&c[..], &w, "push"); }
                if let Ok(i) = c.vet(p) { c.insert(i, T::mk(205, 9)); w.insert(p, T::mk(205, 9)); same(&c[..], &w, "insert at an index"); }
                for i in &old { same(std::slice::from_ref(&c[*i]), &w[i.integer()..i.integer() + 1], "old index") }
            }) } }
            t!(mk(), "Vec"); if spare == 0 { let mut x = mk(); t!(&mut x, "&mut Vec"); }
        } }
    } }
pub fn c09() {
    let mut g = rng(900);
     kinds!(c09_, &mut g, 0);
}
pub fn c10() {
    let ls = [0usize, 1, 2, 3, 7, 8, 9, 12, 16, 24, 63, 64, 65, 72, 128, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 65_535, 65_536, 65_537];
    macro_rules! two { ($t:ty, $u:ty) => {{ for &n in &ls { for &m in &ls { if (n > 5000 || m > 5000) && size_of::<$t>() + size_of::<$u>() > 40 { continue }
        case!("zoo twin", n, m, size_of::<$t>(), size_of::<$u>());
        let a = vec![<$t>::mk(1, 2); n]; let mut b = vec![<$u>::mk(3, 4); m];
        scope(&a[..], |c| match c.make_twin(&b[..]) { Ok(t) => { ck!(n == m, "a twin of length {} for length {} ({}- and {}-byte elements)", m, n, size_of::<$u>(), size_of::<$t>()); eq!(t.len(), m, "length of the twin") } Err(_) => ck!(n != m, "a twin of equal length {} refused", n) });
        scope(a, |c| { let _ = &c; ck!(b.len() == m, "") });
        let a = vec![<$t>::mk(1, 2); n]; scope(&a[..], |c| { let d = c.clone(); eq!(d.len(), n, "length of a clone"); ck!(c.only_index().make_twin(&mut b[..]).is_ok() == (n == m), "a mutable twin of length {} for length {}", m, n) });
    } } }} }
    two!(Main, Main); two!(B<1>, W<3>); two!(D<9>, B<2>); two!(D<1>, W<1>); two!(B<3>, H<1>); two!(D<2>, D<3>);
}
fn c19_<T: El2 + 'static>(g: &mut Rng, what: usize) {
        for &n in &[0usize, 1, 2, 3, 4] { crate::pointers::all_ptr(n, |k| T::mk(k as u32, k)); }
        for &n in &[33usize, 64, 65, 130, 257, 1000, 1025] { if n > 130 && !is_main::<T>() && !deep() { continue }
            let v: Vec<T> = (0..n).map(|k| T::mk(k as u32 & 255, k)).collect();
            scope(&v[..], |c| for &(s, e) in &[(0, n), (1, n), (0, n - 1), (n / 3, n - n / 3), (n / 2, n), (7, 9), (n - 1, n), (n, n), (0, 0)] { crate::pointers::one_range(&c, v.as_ptr(), n, s, e) });
        }
    }
pub fn c19() {
    let mut g = rng(358); kinds!(c19_, &mut g, 0);
}
