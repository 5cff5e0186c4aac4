//! Runtime of the search: case bookkeeping, failure reporting, particle checks.
use indexing::{Index, NonEmpty, Range, Unknown};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::io::Write;

pub static mut NAME: &str = "start";
pub static mut ARGS: [i128; 256] = [0; 256];
pub static mut NARGS: usize = 0;
pub static TICK: AtomicU64 = AtomicU64::new(0);
pub static EXPECT: AtomicBool = AtomicBool::new(false);
pub static BOUNDS: AtomicBool = AtomicBool::new(false); // only the in-bounds / marker facts are judged
pub static TRACE: AtomicBool = AtomicBool::new(false);
static mut SEEN: Option<HashSet<u64>> = None;
static mut NONTRIV: u64 = 0;
static mut SAMPLES: Vec<String> = Vec::new();
pub static mut THOROUGH: bool = false;
pub static mut DEEP: bool = false;
pub fn deep() -> bool { unsafe { DEEP } }
pub static mut SEED: u64 = 1;
pub static mut ONLY: Option<String> = None;
pub static mut RFILE: Option<String> = None;
static mut TF: Option<std::fs::File> = None;

pub fn thorough() -> bool { unsafe { THOROUGH } }
pub fn case_text() -> String {
    #[allow(static_mut_refs)]
    unsafe {
        let v: Vec<String> = ARGS[..NARGS].iter().map(|x| x.to_string()).collect();
        format!("{}({})", NAME, v.join(","))
    }
}
/// Register a case. The first number is the container length; a case is
/// non-trivial when it is at least 2.
#[allow(static_mut_refs)]
pub fn case(name: &'static str, parts: &[&[i128]]) {
    unsafe {
        NAME = name;
        let mut k = 0;
        let mut h: u64 = 0xcbf29ce484222325 ^ (name.as_ptr() as u64);
        for p in parts { for &x in p.iter() {
            if k < 256 { ARGS[k] = x; k += 1; }
            h = (h ^ (x as u64)).wrapping_mul(0x9E3779B97F4A7C15); h ^= h >> 29;
        } }
        NARGS = k;
        let t = TICK.fetch_add(1, Ordering::Relaxed);
        if k > 0 && (ARGS[0] >= 2 || ARGS[0] < 0) {
            let s = SEEN.get_or_insert_with(HashSet::new);
            if s.len() < 3_000_000 && s.insert(h) { NONTRIV += 1; }
        }
        if t.count_ones() == 1 && SAMPLES.len() < 12 { SAMPLES.push(case_text()); }
        if TRACE.load(Ordering::Relaxed) {
            use std::os::unix::fs::FileExt;
            if TF.is_none() { TF = RFILE.as_ref().and_then(|p| std::fs::File::create(format!("{}.trace", p)).ok()); }
            if let Some(f) = &TF { let mut s = case_text(); s.push_str("\n\0"); let _ = f.write_all_at(s.as_bytes(), 0); }
        }
    }
}
#[macro_export]
macro_rules! case { ($n:expr $(, $x:expr)* $(; $s:expr)*) => { $crate::rt::case($n, &[&[$($x as i128),*] $(, &($s).iter().map(|x| *x as i128).collect::<Vec<i128>>()[..])*]) } }

pub fn fail(msg: String) -> ! {
    let t = format!("case: {}\nfailure: {}\n", case_text(), msg);
    print!("FAIL\n{}", t);
    #[allow(static_mut_refs)]
    unsafe { if let Some(p) = &RFILE { let _ = std::fs::write(p, &t); } }
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}
pub fn bounds() -> bool { BOUNDS.load(Ordering::Relaxed) }

#[macro_export]
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !($c) && !$crate::rt::bounds() { $crate::rt::fail(format!($($t)*)) } } }
#[macro_export]
macro_rules! eq { ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (&$a, &$b); if *a != *b && !$crate::rt::bounds() {
    $crate::rt::fail(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) } }} }

pub trait Mk { const NE: bool; }
impl Mk for NonEmpty { const NE: bool = true; }
impl Mk for Unknown { const NE: bool = false; }
/// position of an index, after checking that it is inside a container of length n
pub fn ii<P: Mk>(i: &Index<P>, n: usize) -> usize {
    let x = i.integer();
    if bounds() {
        if x > n { fail(format!("index {} outside a container of length {}", x, n)) }
        if P::NE && x >= n { fail(format!("index {} says it denotes an element of a container of length {}", x, n)) }
    }
    x
}
pub fn ir<P: Mk>(r: &Range<P>, n: usize) -> (usize, usize) {
    let (s, e) = (r.start(), r.end());
    if bounds() {
        if s > e || e > n { fail(format!("range {}..{} outside a container of length {}", s, e, n)) }
        if P::NE && s >= e { fail(format!("range {}..{} says it is non-empty", s, e)) }
    }
    (s, e)
}
pub fn ne<P: Mk>(_: &Range<P>) -> bool { P::NE }
pub fn ine<P: Mk>(_: &Index<P>) -> bool { P::NE }

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 11) as usize % n } }
}
pub fn rng(salt: u64) -> Rng { unsafe { let mut r = Rng((SEED ^ (salt << 32)).wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..4 { r.next(); } r } }

#[allow(static_mut_refs)]
pub fn stats() -> String {
    unsafe {
        let s: Vec<String> = SAMPLES.iter().map(|x| format!("{:?}", x)).collect();
        format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}]}}", TICK.load(Ordering::Relaxed), NONTRIV, s.join(", "))
    }
}
pub const BIG: usize = isize::MAX as usize;
/// a slice of n units; any length costs nothing
pub fn units(n: usize) -> &'static [()] { unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) } }
/// interesting positions in [0, n]
pub fn points(n: usize) -> Vec<usize> {
    if n <= 12 { return (0..=n).collect(); }
    let mut v = vec![0, 1, 2, 3, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1, n];
    for &p in &[63, 64, 255, 256, 65_535, 65_536, 1 << 31, (1 << 32) - 1, 1 << 32] { if p < n - 3 { v.push(p) } }
    v.sort(); v.dedup(); v
}
pub fn sizes() -> Vec<usize> {
    let k = if deep() { 14 } else if thorough() { 9 } else { 6 };
    let mut v: Vec<usize> = (0..=k).collect();
    v.extend(&[31, 64, 100, 255, 256, 257, 65_535, 65_536, 65_537, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 5, BIG - 1, BIG]);
    v
}
pub fn offsets(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..4).collect();
    for &p in &[n, n / 2, BIG, usize::MAX, usize::MAX - n, usize::MAX / 2 + 1] { for d in 0..3 { v.push(p.wrapping_add(d)); v.push(p.wrapping_sub(d)); } }
    if n <= 12 { v.extend(0..n + 3); }
    v.sort(); v.dedup(); v
}
