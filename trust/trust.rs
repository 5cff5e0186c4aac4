//! The trusted base, checked by a second back end (Kani/CBMC).
//!
//! `vx/*.vx` assumes specifications of library functions and trusts a handful of
//! raw-memory primitives.  Here the real operation behind each of them is run on
//! symbolic inputs and compared with the text of the assumed contract.
//!
//! `full_*`:  every value of the machine types (no bound).
//! `mem_*`:   symbolic contents, positions and lengths over storage of at most N
//!            elements, for elements of size 0, 1, 4 and 8 bytes (bounded).
#![allow(dead_code)]
use std::cmp::Ordering;
use std::ptr;

fn ord(a: usize, b: usize) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
fn ord2(a: (usize, usize), b: (usize, usize)) -> Ordering { if a.0 != b.0 { ord(a.0, b.0) } else { ord(a.1, b.1) } }
fn any_ord() -> Ordering { let k: u8 = kani::any(); match k % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } }

#[kani::proof] fn full_min_max() {
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    assert!(std::cmp::min(a, b) == if a <= b { a } else { b });
    assert!(std::cmp::max(a, b) == if a <= b { b } else { a });
}
#[kani::proof] fn full_overflowing() {
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    let w = 1u128 << usize::BITS;
    let (r, o) = a.overflowing_sub(b);
    assert!(o == (a < b) && r as u128 == if a >= b { (a - b) as u128 } else { a as u128 + w - b as u128 });
    let (r, o) = a.overflowing_add(b);
    let s = a as u128 + b as u128;
    assert!(o == (s >= w) && r as u128 == if s < w { s } else { s - w });
}
#[kani::proof] fn full_abs() {
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    assert!(a.abs_diff(b) == if a >= b { a - b } else { b - a });
    let i: isize = kani::any();
    assert!(i.unsigned_abs() as i128 == if i >= 0 { i as i128 } else { -(i as i128) });
}
#[kani::proof] fn mem_div_ceil() {
    // 10-bit operands: wider divisions are out of the solver's reach
    let (a, b): (u16, u16) = (kani::any(), kani::any());
    kani::assume(a < 1024 && 0 < b && b < 1024);
    let (a, b) = (a as usize, b as usize);
    assert!(a.div_ceil(b) == (a + b - 1) / b);
}
#[kani::proof] fn full_option() {
    let (o, p, d): (Option<u32>, Option<u32>, u32) = (kani::any(), kani::any(), kani::any());
    let (x, b): (u32, bool) = (kani::any(), kani::any());
    assert!(o.map_or(d, |v| v ^ x) == match o { Some(v) => v ^ x, None => d });
    assert!(o.or(p) == if o.is_some() { o } else { p });
    assert!(b.then_some(x) == if b { Some(x) } else { None });
    assert!(b.then(|| x) == if b { Some(x) } else { None });
    let f = o.filter(|v| *v < x);
    match o { None => assert!(f.is_none()), Some(v) => assert!(if v < x { f == o } else { f.is_none() }) }
    let r: Result<u32, u8> = if b { Ok(x) } else { Err(7) };
    assert!(r.unwrap_or(d) == if b { x } else { d });
    let mut m = x;
    let old = std::mem::replace(&mut m, d);
    assert!(old == x && m == d);
}
#[kani::proof] fn full_ordering() {
    let (a, b) = (any_ord(), any_ord());
    assert!((a == b) == (a as i8 == b as i8));
    assert!(a.is_lt() == (a as i8 == -1) && a.is_le() == (a as i8 <= 0) && a.is_gt() == (a as i8 == 1) && a.is_ge() == (a as i8 >= 0) && a.is_eq() == (a as i8 == 0) && a.is_ne() == (a as i8 != 0));
    assert!(a.reverse() as i8 == -(a as i8));
}
#[kani::proof] fn full_pairs() {
    let (a, b): ((usize, usize), (usize, usize)) = (kani::any(), kani::any());
    assert!(a.cmp(&b) == ord2(a, b));
    assert!(a.partial_cmp(&b) == Some(ord2(a, b)));
    assert!((a == b) == (a.0 == b.0 && a.1 == b.1));
    assert!(a.0.cmp(&b.0) == ord(a.0, b.0) && a.0.partial_cmp(&b.0) == Some(ord(a.0, b.0)));
}
/// a hasher that keeps what it was fed
#[derive(Clone, PartialEq)]
struct Rec { n: usize, w: [usize; 4], other: bool }
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) { self.other = true }
    fn write_usize(&mut self, x: usize) { self.w[self.n] = x; self.n += 1; }
}
#[kani::proof] fn full_hash() {
    use std::hash::Hash;
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    let r0 = Rec { n: 0, w: [0; 4], other: false };
    let (mut p, mut q) = (r0.clone(), r0.clone());
    (a, b).hash(&mut p);
    a.hash(&mut q); b.hash(&mut q);
    assert!(p == q && !p.other && p.n == 2);
}

// ------------------------------------------------------------------ raw memory
const N: usize = 3;
trait El: Copy + PartialEq + kani::Arbitrary { }
impl El for () {}
impl El for u8 {}
impl El for u32 {}
#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
struct Pad { a: u32, b: u8 }
impl El for Pad {}

/// any storage of 0..=N elements
fn any_len() -> usize { let n: usize = kani::any(); kani::assume(n <= N); n }
fn pos(n: usize) -> usize { let k: usize = kani::any(); kani::assume(k < n); k }
fn edge(n: usize) -> usize { let k: usize = kani::any(); kani::assume(k <= n); k }

/// the pointer model: element k lives at base + k * size; add, sub, offset and offset_from agree with it; what is read is element k
fn addr<T: El>() {
    let store: [T; N] = kani::any();
    let n = any_len();
    let s = &store[..n];
    let base = s.as_ptr();
    let z = std::mem::size_of::<T>();
    let (i, j) = (edge(n), edge(n));
    unsafe {
        let p = base.add(i);
        assert!(p as usize == base as usize + i * z);
        assert!(base.offset(i as isize) == p);
        let q = p.offset(j as isize - i as isize);
        assert!(q as usize == base as usize + j * z);
        if j <= i { assert!(p.sub(i - j) as usize == base as usize + j * z) }
        assert!((p < q) == ((p as usize) < q as usize) && (p <= q) == (p as usize <= q as usize) && (p == q) == (p as usize == q as usize) && p.partial_cmp(&q) == Some((p as usize).cmp(&(q as usize))));
        if z > 0 { assert!(p.offset_from(q) == i as isize - j as isize) }
        if n > 0 {
            let k = pos(n);
            let e: *const T = &s[k];
            assert!(e as usize == base as usize + k * z);
            assert!(*s.get_unchecked(k) == s[k] && s.get_unchecked(k) as *const T as usize == e as usize);
            assert!(*(&*base.add(k)) == s[k]);
            assert!(ptr::read(base.add(k)) == s[k]);
        }
        // subrange
        if i <= j {
            let t = std::slice::from_raw_parts(base.add(i), j - i);
            assert!(t.len() == j - i);
            if t.len() > 0 { let x = pos(t.len()); assert!(t[x] == s[i + x]) }
        }
    }
}
/// writes: one position changes, the others stay
fn write<T: El>() {
    let mut store: [T; N] = kani::any();
    let old = store;
    let n = any_len();
    kani::assume(n > 0);
    let (k, m) = (pos(n), pos(n));
    let x: T = kani::any();
    let how: u8 = kani::any();
    unsafe {
        let base = store.as_mut_ptr();
        match how % 3 {
            0 => ptr::write(base.add(k), x),
            1 => ptr::copy(&x, base.add(k), 1),
            _ => *store[..n].get_unchecked_mut(k) = x,
        }
    }
    assert!(store[m] == if m == k { x } else { old[m] });
}
fn swap<T: El>() {
    let mut store: [T; N] = kani::any();
    let old = store;
    let n = any_len();
    kani::assume(n > 0);
    let (a, b, m) = (pos(n), pos(n), pos(n));
    if kani::any() { unsafe { let p = store.as_mut_ptr(); ptr::swap(p.add(a), p.add(b)) } }
    else { store[..n].swap(a, b) }
    assert!(store[m] == if m == b { old[a] } else if m == a { old[b] } else { old[m] });
}
/// memmove, and memcpy on disjoint parts
fn copy<T: El>() {
    let mut store: [T; N] = kani::any();
    let old = store;
    let (a, b) = (edge(N), edge(N));
    let c: usize = kani::any();
    kani::assume(c <= N && a + c <= N && b + c <= N);
    let z = std::mem::size_of::<T>();
    let apart: bool = kani::any();
    unsafe {
        let p = store.as_mut_ptr();
        let (s, d) = (p.add(a) as *const T, p.add(b));
        // (the count is made concrete: CBMC's memmove is imprecise for symbolic sizes)
        macro_rules! by { ($($k:literal)*) => { match c { $($k => {
            if apart && (s as usize + c * z <= d as usize || d as usize + c * z <= s as usize) { ptr::copy_nonoverlapping(s, d, $k) }
            else { ptr::copy(s, d, $k) } })* _ => unreachable!() } } }
        by!(0 1 2 3)
    }
    let m = pos(N);
    assert!(store[m] == if b <= m && m < b + c { old[a + (m - b)] } else { old[m] });
}
/// two disjoint mutable parts of one storage
fn two<T: El>() {
    let mut store: [T; N] = kani::any();
    let old = store;
    let (a, b) = (edge(N), edge(N));
    let (m, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(m <= N && n <= N && a + m <= N && b + n <= N && (a + m <= b || b + n <= a));
    let (x, y): (T, T) = (kani::any(), kani::any());
    let (mut i, mut j) = (N, N);
    unsafe {
        let p = store.as_mut_ptr();
        let (s, t) = (std::slice::from_raw_parts_mut(p.add(a), m), std::slice::from_raw_parts_mut(p.add(b), n));
        assert!(s.len() == m && t.len() == n);
        if m > 0 { let k = pos(m); assert!(s[k] == old[a + k]); s[k] = x; i = a + k }
        if n > 0 { let k = pos(n); assert!(t[k] == old[b + k]); t[k] = y; j = b + k }
    }
    let k = pos(N);
    assert!(store[k] == if k == i && k != j { x } else if k == j { y } else { old[k] });
}
macro_rules! mem { ($($f:ident: $($nm:ident $t:ty),*;)*) => { $($(#[kani::proof] #[kani::unwind(8)] fn $nm() { $f::<$t>() })*)* } }
mem! {
    addr: mem_addr_z (), mem_addr_1 u8, mem_addr_4 u32, mem_addr_8 Pad;
    write: mem_write_z (), mem_write_1 u8, mem_write_4 u32, mem_write_8 Pad;
    swap: mem_swap_z (), mem_swap_1 u8, mem_swap_4 u32, mem_swap_8 Pad;
    copy: mem_copy_z (), mem_copy_1 u8, mem_copy_4 u32, mem_copy_8 Pad;
    two: mem_two_z (), mem_two_1 u8, mem_two_4 u32, mem_two_8 Pad;
}
