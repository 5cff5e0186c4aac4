//! C13 - C17, C21: the algorithms.
use crate::rt::*;
use crate::storage::{drop_once, els, ids, no_drops, El};
use indexing::{algorithms as al, scope};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- the order of El, as instrumented
#[derive(Clone, Copy, PartialEq)]
enum Mode { Key, Script }
thread_local! {
    static MODE: Cell<Mode> = Cell::new(Mode::Key);
    static CALLS: Cell<usize> = Cell::new(0);
    static BITS: Cell<u64> = Cell::new(0);
    static PANIC_AT: Cell<usize> = Cell::new(usize::MAX);
    static WATCH: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());   // live storage: address, length
    static TOTAL: Cell<usize> = Cell::new(0);
}
/// all elements are present exactly once in the watched storage
fn whole(what: &str) {
    WATCH.with(|w| {
        let w = w.borrow();
        if w.is_empty() { return }
        let mut seen = [0u8; 512];
        for &(p, n) in w.iter() { for e in unsafe { std::slice::from_raw_parts(p as *const El, n) } {
            if e.id >= 512 || e.pad != [e.id as u8; 3] { fail(format!("{}: the slice holds garbage (id {})", what, e.id)) }
            seen[e.id] += 1;
        } }
        for i in 0..TOTAL.with(|t| t.get()) { if seen[i] != 1 { fail(format!("{}: element {} is present {} times (comparison {})", what, i, seen[i], CALLS.with(|c| c.get()))) } }
    })
}
fn inside(e: &El) {
    WATCH.with(|w| { let w = w.borrow(); if w.is_empty() { return }
        let a = e as *const El as usize;
        if !w.iter().any(|&(p, n)| a >= p && a < p + n * std::mem::size_of::<El>()) { fail(format!("the comparison was given an element outside the slice: comparison {}", CALLS.with(|c| c.get()))) } })
}
fn answer(a: &El, b: Option<&El>) -> Ordering {
    let k = CALLS.with(|c| { let k = c.get(); c.set(k + 1); k });
    inside(a); if let Some(b) = b { inside(b) }
    whole("during a comparison");
    if PANIC_AT.with(|p| p.get()) == k { panic!("comparison panics") }
    match MODE.with(|m| m.get()) {
        Mode::Key => a.key.cmp(&b.map_or(0, |b| b.key)),
        Mode::Script => { let s = BITS.with(|b| b.get()); let x = if k < 64 { s >> k & 1 } else { (s ^ k as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 63 };
            let y = (s >> 17 ^ (k as u64).wrapping_mul(0x2545F4914F6CDD1D)) >> 61 & 1;
            if x == 1 { if y == 1 && s >> 63 == 1 { Ordering::Equal } else { Ordering::Less } } else { Ordering::Greater } }
    }
}
impl PartialEq for El { fn eq(&self, o: &El) -> bool { answer(self, Some(o)) == Ordering::Equal } }
impl Eq for El {}
impl PartialOrd for El { fn partial_cmp(&self, o: &El) -> Option<Ordering> { Some(answer(self, Some(o))) } }
impl Ord for El { fn cmp(&self, o: &El) -> Ordering { answer(self, Some(o)) } }
fn lt(a: &El, b: &El) -> bool { answer(a, Some(b)) == Ordering::Less }

fn reset() { MODE.with(|m| m.set(Mode::Key)); CALLS.with(|c| c.set(0)); PANIC_AT.with(|p| p.set(usize::MAX)); WATCH.with(|w| w.borrow_mut().clear()); }
fn watch(v: &[El], total: usize) { WATCH.with(|w| w.borrow_mut().push((v.as_ptr() as usize, v.len()))); TOTAL.with(|t| t.set(total)) }

pub const SORTS: [(&str, fn(&mut [El]), bool); 9] = [
    ("quicksort_range", al::quicksort_range::<El>, false),
    ("quicksort_prange", al::quicksort_prange::<El>, false),
    ("quicksort_bounds", al::quicksort_bounds::<El>, false),
    ("insertion_sort_indexes", is_idx, true),
    ("insertion_sort_ranges", is_rng, true),
    ("insertion_sort_pointerindex", is_ptr, true),
    ("insertion_sort_rust", is_rust, true),
    ("insertion_sort_prange_lower", is_low, false),
    ("insertion_sort2_indexes", is_two, true),
];
fn is_idx(v: &mut [El]) { al::insertion_sort_indexes(v, lt) }
fn is_rng(v: &mut [El]) { al::insertion_sort_ranges(v, lt) }
fn is_ptr(v: &mut [El]) { al::insertion_sort_pointerindex(v, lt) }
fn is_rust(v: &mut [El]) { al::insertion_sort_rust(v, lt) }
fn is_low(v: &mut [El]) { al::insertion_sort_prange_lower(v, lt) }
fn is_two(v: &mut [El]) {
    let mut u: Vec<Box<usize>> = v.iter().map(|e| Box::new(e.id)).collect();
    let r = catch_unwind(AssertUnwindSafe(|| al::insertion_sort2_indexes(v, &mut u, lt)));
    let (a, b) = (ids(v), u.iter().map(|x| **x).collect::<Vec<_>>());
    eq!(b, a, "the second slice of insertion_sort2_indexes");
    if let Err(e) = r { std::panic::resume_unwind(e) }
}
fn name(k: usize) -> &'static str { SORTS[k].0 }

fn sorted_ok(k: usize, keys: &[i32], judge_order: bool, judge_stable: bool) {
    let mut v = els(keys);
    case!(name(k), keys.len(); keys);
    reset();
    (SORTS[k].1)(&mut v);
    reset();
    no_drops(name(k));
    let got = ids(&v);
    let mut s = got.clone(); s.sort();
    eq!(s, (0..keys.len()).collect::<Vec<_>>(), "elements after {}", name(k));
    if judge_order { ck!(v.windows(2).all(|w| w[0].key <= w[1].key), "{} left {:?}", name(k), v.iter().map(|e| e.key).collect::<Vec<_>>()); }
    if judge_stable && SORTS[k].2 { ck!(v.windows(2).all(|w| w[0].key < w[1].key || w[0].key > w[1].key || w[0].id < w[1].id), "{} is not stable: keys {:?}, original positions {:?}", name(k), v.iter().map(|e| e.key).collect::<Vec<_>>(), got); }
    drop_once(v, keys.len(), name(k));
}
fn each_keys<F: FnMut(&[i32])>(n: usize, base: i32, mut f: F) {
    let mut k = vec![0; n];
    loop {
        f(&k);
        let mut i = 0;
        while i < n { k[i] += 1; if k[i] < base { break } k[i] = 0; i += 1 }
        if i == n { return }
    }
}
/// inputs for the sorts: structured and random, with sizes around the thresholds
fn inputs(g: &mut Rng, n: usize) -> Vec<i32> {
    let kinds = [2usize, 3, 5, n.max(1), 4 * n + 1];
    let b = kinds[g.below(5)].max(1);
    let mut v: Vec<i32> = (0..n).map(|_| g.below(b) as i32).collect();
    match g.below(10) {
        0 => v.sort(),
        1 => { v.sort(); v.reverse() }
        2 => { v.sort(); let h = n / 2; v[h..].reverse() }
        3 => { v.sort(); v.rotate_left(g.below(n + 1)) }
        4 => { v.sort(); for _ in 0..2 { if n > 1 { let (i, j) = (g.below(n), g.below(n)); v.swap(i, j) } } }
        5 => { let m = *v.iter().max().unwrap_or(&0); for x in v.iter_mut() { if g.below(3) == 0 { *x = m } } }
        6 => { if n > 2 { let m = -1; v[n / 2] = m; v[0] = m; v[n - 1] = m } }
        7 => { if n > 2 { let m = 1000; v[n / 2] = m; if g.below(2) == 0 { v[0] = m } if g.below(2) == 0 { v[n - 1] = m } } }
        _ => {}
    }
    v
}
pub fn sorts(order: bool, stable: bool) {
    let mut g = rng(13);
    for k in 0..SORTS.len() {
        if stable && !order && !SORTS[k].2 { continue }
        let (n3, n2, np) = if thorough() { (8, 12, 8) } else { (7, 10, 6) };
        for n in 0..=n3 { each_keys(n, 3, |keys| sorted_ok(k, keys, order, stable)); }
        for n in n3 + 1..=n2 { each_keys(n, 2, |keys| sorted_ok(k, keys, order, stable)); }
        each_keys(np, np as i32, |keys| if k >= 3 && (0..np).all(|x| keys.contains(&(x as i32))) { sorted_ok(k, keys, order, stable) });
        if k == 8 { for (a, b) in [(3usize, 2usize), (0, 1), (4, 7)] { case!("insertion_sort2 lengths", a, b); } }
        let rounds = if k < 3 { if thorough() { 60000 } else { 9000 } } else { 700 };
        for i in 0..rounds {
            let n = if k < 3 { 23 + g.below(if i % 8 == 0 { 120 } else { 30 }) } else { 9 + g.below(30) };
            let v = inputs(&mut g, n);
            sorted_ok(k, &v, order, stable);
        }
    }
    // the sorts on plain numbers, with a custom strict order and larger sizes
    for i in 0..if thorough() { 400 } else { 60 } {
        let n = g.below(400);
        let v: Vec<i32> = (0..n).map(|_| g.below(if i % 3 == 0 { 1 << 30 } else { n / 2 + 1 }) as i32).collect();
        case!("plain sorts", n, i);
        let mut want = v.clone(); want.sort();
        macro_rules! t { ($f:expr, $w:expr) => {{ let mut x = v.clone(); $f(&mut x[..]); eq!(x, want, "{}", $w); }} }
        t!(al::quicksort_range, "quicksort_range"); t!(al::quicksort_prange, "quicksort_prange"); t!(al::quicksort_bounds, "quicksort_bounds");
        want.reverse();
        t!(|x: &mut [i32]| al::insertion_sort_indexes(x, |a, b| a > b), "insertion_sort_indexes, descending");
        t!(|x: &mut [i32]| al::insertion_sort_ranges(x, |a, b| a > b), "insertion_sort_ranges, descending");
        t!(|x: &mut [i32]| al::insertion_sort_prange_lower(x, |a, b| a > b), "insertion_sort_prange_lower, descending");
        t!(|x: &mut [i32]| al::insertion_sort_pointerindex(x, |a, b| a > b), "insertion_sort_pointerindex, descending");
        t!(|x: &mut [i32]| al::insertion_sort_rust(x, |a, b| a > b), "insertion_sort_rust, descending");
        t!(|x: &mut [i32]| { let mut y = x.to_vec(); al::insertion_sort2_indexes(x, &mut y, |a, b| a > b); eq!(&y[..], &x[..], "second slice") }, "insertion_sort2_indexes, descending");
    }
}
/// long slices: positions beyond 8 and 16 bits
fn long_sorts(stable_only: bool) {
    let mut g = rng(131);
    for &n in &[300usize, 66_001, 140_000] {
        if !stable_only {
            let v: Vec<u32> = (0..n).map(|_| (g.next() >> 34) as u32).collect();
            let mut want = v.clone(); want.sort();
            macro_rules! t { ($f:expr, $w:expr) => {{ case!(concat!("long ", $w), n); let mut x = v.clone(); $f(&mut x[..]); let bad = (0..n).find(|&k| x[k] != want[k]); ck!(bad.is_none(), "{} of {} numbers is wrong at {:?}", $w, n, bad); }} }
            t!(al::quicksort_range, "quicksort_range"); t!(al::quicksort_prange, "quicksort_prange"); t!(al::quicksort_bounds, "quicksort_bounds");
        }
        // nearly sorted with equal keys: (key, original position)
        for at in [0usize, 1, n / 2, n - 300, n - 1].iter().cloned() {
            let mut v: Vec<(u32, u32)> = (0..n).map(|k| (2 * (k as u32 / 3) + 2, 0)).collect();
            let moved = [(1u32, 7u32), (2, 7), (2 * (n as u32 / 7), 7), (2 * (n as u32 / 6) + 1, 7)][g.below(4)];
            v.insert(at, moved);
            for (k, x) in v.iter_mut().enumerate() { x.1 = k as u32 }
            let mut want = v.clone(); want.sort();
            macro_rules! t { ($f:expr, $w:expr) => {{ case!(concat!("nearly sorted, ", $w), n, at, moved.0); let mut x = v.clone(); $f(&mut x[..]);
                let bad = (0..n + 1).find(|&k| x[k].0 != want[k].0 || (stable_only && x[k] != want[k])); ck!(bad.is_none(), "{} of {} numbers is wrong at {:?}", $w, n + 1, bad); }} }
            t!(|x: &mut [(u32, u32)]| al::insertion_sort_indexes(x, |a, b| a.0 < b.0), "insertion_sort_indexes");
            t!(|x: &mut [(u32, u32)]| al::insertion_sort_ranges(x, |a, b| a.0 < b.0), "insertion_sort_ranges");
            t!(|x: &mut [(u32, u32)]| al::insertion_sort_pointerindex(x, |a, b| a.0 < b.0), "insertion_sort_pointerindex");
            t!(|x: &mut [(u32, u32)]| al::insertion_sort_rust(x, |a, b| a.0 < b.0), "insertion_sort_rust");
            t!(|x: &mut [(u32, u32)]| { let mut y: Vec<u32> = x.iter().map(|e| !e.1).collect(); al::insertion_sort2_indexes(x, &mut y, |a, b| a.0 < b.0); let bad = (0..n + 1).find(|&k| y[k] != !x[k].1); ck!(bad.is_none(), "the second slice is not in step at {:?}", bad) }, "insertion_sort2_indexes");
            if !stable_only { t!(|x: &mut [(u32, u32)]| al::insertion_sort_prange_lower(x, |a, b| a.0 < b.0), "insertion_sort_prange_lower"); }
        }
    }
}
pub fn c13() { sorts(true, false); long_sorts(false) }
pub fn c14() {
    sorts(false, true);
    long_sorts(true);
    // the paired sort with unrelated second elements and sizes; unequal lengths must not touch the data
    let mut g = rng(14);
    for n in 0..9usize { each_keys(n.min(6), 3, |keys| {
        case!("insertion_sort2_indexes pairs", keys.len(); keys);
        reset();
        let mut v = els(keys); let mut u: Vec<String> = (0..keys.len()).map(|k| format!("p{}", k)).collect();
        al::insertion_sort2_indexes(&mut v, &mut u, lt);
        for (a, b) in v.iter().zip(&u) { ck!(*b == format!("p{}", a.id), "pair of element {} is {}", a.id, b); }
        let mut want: Vec<(i32, usize)> = keys.iter().cloned().zip(0..).collect(); want.sort();
        eq!(v.iter().map(|e| (e.key, e.id)).collect::<Vec<_>>(), want, "order of the first slice");
        let mut w: Vec<i32> = keys.to_vec(); let mut units = vec![(); keys.len()]; al::insertion_sort2_indexes(&mut w, &mut units, |a, b| a < b);
        let mut s = keys.to_vec(); s.sort(); eq!(w, s, "sorted with units");
    }); }
    for _ in 0..300 { let n = 10 + g.below(60); let keys = inputs(&mut g, n); case!("long pairs", n; keys); let mut v = keys.clone(); let mut u: Vec<(i32, usize)> = keys.iter().cloned().zip(0..).collect(); al::insertion_sort2_indexes(&mut v, &mut u, |a, b| a < b); let mut want = u.clone(); want.sort(); eq!(u, want, "second slice"); eq!(v, want.iter().map(|x| x.0).collect::<Vec<_>>(), "first slice"); }
}
pub fn c15() {
    let run = |keys: &[i32]| {
        case!("heapify", keys.len(); keys);
        reset();
        let mut v = els(keys);
        al::heapify(&mut v);
        no_drops("heapify");
        let mut s = ids(&v); s.sort();
        eq!(s, (0..keys.len()).collect::<Vec<_>>(), "elements after heapify");
        for k in 1..v.len() { ck!(v[(k - 1) / 2].key <= v[k].key, "element {} is {} but its child {} is {}", (k - 1) / 2, v[(k - 1) / 2].key, k, v[k].key); }
        drop_once(v, keys.len(), "heapify");
    };
    let (a, b) = if thorough() { (9, 13) } else { (8, 11) };
    for n in 0..=a { each_keys(n, 3, |k| run(k)); }
    for n in a + 1..=b { each_keys(n, 2, |k| run(k)); }
    let np = 7; each_keys(np, np as i32, |keys| if (0..np).all(|x| keys.contains(&(x as i32))) { run(keys) });
    let mut g = rng(15);
    for _ in 0..if thorough() { 30000 } else { 6000 } { let n = g.below(70); let v = inputs(&mut g, n); run(&v); }
    long_heaps();
    for n in 0..40i32 { run(&(0..n).rev().collect::<Vec<_>>()); run(&(0..n).collect::<Vec<_>>()); }
    for _ in 0..40 { let n = 100 + g.below(900); let mut v: Vec<i32> = inputs(&mut g, n); case!("long heapify", n; &v[..200.min(n)]); al::heapify(&mut v); for k in 1..n { ck!(v[(k - 1) / 2] <= v[k], "element {} is greater than its child {}", (k - 1) / 2, k) } }
}
// (see c15)
fn long_heaps() {
    let mut g = rng(151);
    for &n in &[255usize, 256, 257, 511, 512, 65_535, 65_536, 131_072, 131_073, 140_001, 300_000] { for m in 0..3 {
        case!("very long heapify", n, m);
        let mut v: Vec<u32> = (0..n).map(|k| match m { 0 => (g.next() >> 34) as u32, 1 => (n - k) as u32, _ => (g.next() >> 61) as u32 }).collect();
        let mut want = v.clone(); want.sort();
        al::heapify(&mut v);
        for k in 1..n { ck!(v[(k - 1) / 2] <= v[k], "element {} is greater than its child {}", (k - 1) / 2, k) }
        v.sort(); ck!(v == want, "the elements changed");
    } }
}

// ---------------------------------------------------------------- C16
fn lowers(v: &[i32], x: i32) {
    let want = v.iter().take_while(|&&y| y < x).count();
    case!("lower_bound", v.len(), x; v);
    let back: Vec<i32> = [i32::MAX, i32::MIN].iter().chain(v).chain(&[i32::MIN, i32::MAX]).cloned().collect();
    let s = &back[2..2 + v.len()];
    eq!(al::lower_bound(s, &x), want, "lower_bound"); eq!(al::lower_bound_prange(s, &x), want, "lower_bound_prange"); eq!(al::lower_bound_raw_ptr(s, &x), want, "lower_bound_raw_ptr");
    eq!(al::lower_bound_pslice(s, |y| *y < x), want, "lower_bound_pslice");
    let w: Vec<[i32; 3]> = s.iter().map(|&y| [y, -y, 0]).collect();
    eq!(al::lower_bound_prange(&w[..], &[x, i32::MIN, i32::MIN]), want, "lower_bound_prange, 12 bytes"); eq!(al::lower_bound_raw_ptr(&w[..], &[x, i32::MIN, i32::MIN]), want, "lower_bound_raw_ptr, 12 bytes"); eq!(al::lower_bound_pslice(&w[..], |y| y[0] < x), want, "lower_bound_pslice, 12 bytes");
    scope(s, |c| {
        let b = s.as_ptr();
        for a in 0..=s.len() { for e in a..=s.len() { if s.len() > 8 && (a * 7 + e) % 5 != 0 { continue }
            let want = a + s[a..e].iter().take_while(|&&y| y < x).count();
            let r = crate::pointers::sub(&c, a, e);
            let p = |i: *const i32| (i as usize).wrapping_sub(b as usize) / 4;
            eq!(p(al::lower_bound_prange_(r, &c, |y| *y < x).ptr()), want, "lower_bound_prange_ in {}..{}", a, e);
            eq!(p(al::lower_bound_pslice_(r.into(), &c, |y| *y < x).ptr()), want, "lower_bound_pslice_ in {}..{}", a, e);
            if let Ok(r) = r.nonempty() { eq!(p(al::lower_bound_prange_(r, &c, |y| *y < x).ptr()), want, "lower_bound_prange_ in {}..{}, nonempty", a, e); eq!(p(al::lower_bound_pslice_(r.into(), &c, |y| *y < x).ptr()), want, "lower_bound_pslice_ in {}..{}, nonempty", a, e); }
        } }
    });
}
fn found(got: Result<usize, usize>, v: &[i32], x: i32, lo: usize, hi: usize, what: &str) {
    match got {
        Ok(k) => ck!(k >= lo && k < hi && v[k] == x, "{} reports position {} for {}", what, k, x),
        Err(k) => { ck!(!v[lo..hi].contains(&x), "{} did not find {} (answer {})", what, x, k); eq!(k, lo + v[lo..hi].iter().take_while(|&&y| y < x).count(), "insertion point by {}", what) }
    }
}
fn binaries(v: &[i32], x: i32) {
    case!("binary_search", v.len(), x; v);
    let back: Vec<i32> = [x, x].iter().chain(v).chain(&[x, x]).cloned().collect();
    let s = &back[2..2 + v.len()];
    let n = s.len();
    found(al::binary_search(s, &x), s, x, 0, n, "binary_search"); found(al::binary_search_by(s, |y| y.cmp(&x)), s, x, 0, n, "binary_search_by");
    found(al::binary_search_by_prange(s, |y| y.cmp(&x)), s, x, 0, n, "binary_search_by_prange"); found(al::binary_search_by_pslice(s, |y| y.cmp(&x)), s, x, 0, n, "binary_search_by_pslice");
    scope(s, |c| {
        let b = s.as_ptr();
        for a in 0..=n { for e in a..=n { if n > 8 && (a * 7 + e) % 5 != 0 { continue }
            let r = crate::pointers::sub(&c, a, e);
            macro_rules! p { ($r:expr) => { match $r { Ok(i) => Ok((i.ptr() as usize).wrapping_sub(b as usize) / 4), Err(i) => Err((i.ptr() as usize).wrapping_sub(b as usize) / 4) } } }
            found(p!(al::binary_search_by_prange_(r, &c, |y| y.cmp(&x))), s, x, a, e, "binary_search_by_prange_");
            found(p!(al::binary_search_by_pslice_(r.into(), &c, |y| y.cmp(&x))), s, x, a, e, "binary_search_by_pslice_");
            if let Ok(r) = r.nonempty() { found(p!(al::binary_search_by_prange_(r, &c, |y| y.cmp(&x))), s, x, a, e, "binary_search_by_prange_"); found(p!(al::binary_search_by_pslice_(r.into(), &c, |y| y.cmp(&x))), s, x, a, e, "binary_search_by_pslice_"); }
        } }
    });
}
/// whatever the predicate answers: inside the slice, and only elements of the searched part are asked
fn wild(n: usize, s: u64) {
    let v: Vec<u8> = (0..n as u8 + 4).collect();
    let v = &v[2..n + 2];
    case!("wild answers", n, s);
    let b = v.as_ptr() as usize;
    let k = Cell::new(0u32);
    let ask = |lo: usize, hi: usize, x: &u8| { let p = (x as *const u8 as usize).wrapping_sub(b); if p < lo || p >= hi { fail(format!("the predicate was asked about position {} outside {}..{}", p as isize, lo, hi)) } let t = k.get(); k.set(t + 1); if t > 200 { fail("does not end".into()) } s >> (2 * t % 64) & 3 };
    let o = |t: u64| match t { 0 | 3 => Ordering::Less, 1 => Ordering::Greater, _ => if s >> 60 & 1 == 1 { Ordering::Equal } else { Ordering::Greater } };
    let rd = |r: Result<usize, usize>, w: &str| { let (x, lim) = match r { Ok(x) => (x + 1, n), Err(x) => (x, n) }; ck!(x <= lim, "{} answers {:?} for length {}", w, r, n); k.set(0) };
    rd(al::binary_search_by(v, |x| o(ask(0, n, x))), "binary_search_by"); rd(al::binary_search_by_prange(v, |x| o(ask(0, n, x))), "binary_search_by_prange"); rd(al::binary_search_by_pslice(v, |x| o(ask(0, n, x))), "binary_search_by_pslice");
    rd(Err(al::lower_bound_pslice(v, |x| ask(0, n, x) & 1 == 0)), "lower_bound_pslice");
    scope(v, |c| for a in 0..=n { for e in a..=n {
        let r = crate::pointers::sub(&c, a, e);
        let f = |p: *const u8, lim: usize, w: &str| { let p = (p as usize).wrapping_sub(b); ck!(p >= a && p < lim, "{} in {}..{} answers {}", w, a, e, p as isize); k.set(0) };
        f(al::lower_bound_prange_(r, &c, |x| ask(a, e, x) & 1 == 0).ptr(), e + 1, "lower_bound_prange_");
        f(al::lower_bound_pslice_(r.into(), &c, |x| ask(a, e, x) & 1 == 0).ptr(), e + 1, "lower_bound_pslice_");
        match al::binary_search_by_prange_(r, &c, |x| o(ask(a, e, x))) { Ok(i) => f(i.ptr(), e, "binary_search_by_prange_"), Err(i) => f(i.ptr(), e + 1, "binary_search_by_prange_") }
        match al::binary_search_by_pslice_(r.into(), &c, |x| o(ask(a, e, x))) { Ok(i) => f(i.ptr(), e, "binary_search_by_pslice_"), Err(i) => f(i.ptr(), e + 1, "binary_search_by_pslice_") }
    } });
}
pub fn c16() {
    let nn = if thorough() { 13 } else { 10 };
    for n in 0..=nn {
        // sorted slices over {0, 2, 4}; searched: -1 .. 5
        for a in 0..=n { for b in a..=n {
            let v: Vec<i32> = (0..n).map(|k| if k < a { 0 } else if k < b { 2 } else { 4 }).collect();
            for x in -1..6 { lowers(&v, x); binaries(&v, x); }
        } }
        let v: Vec<i32> = (0..n as i32).map(|k| 2 * k).collect();
        for x in -1..2 * n as i32 + 2 { lowers(&v, x); binaries(&v, x); }
    }
    let mut g = rng(16);
    for _ in 0..if thorough() { 3000 } else { 400 } {
        let n = g.below(80); let b = 1 + g.below(40);
        let mut v: Vec<i32> = (0..n).map(|_| g.below(b) as i32 * 2).collect(); v.sort();
        for _ in 0..3 { let x = g.below(2 * b + 2) as i32 - 1; lowers(&v, x); binaries(&v, x); }
    }
    for _ in 0..if thorough() { 4000 } else { 600 } { let n = g.below(12); let s = g.next(); wild(n, s); }
    for n in 0..5 { for s in 0..256u64 { wild(n, s | s << 60) } }
    // NaN-like partial orders, units and very long slices (index based)
    let f = [f64::NAN, 1.0, f64::NAN, 2.0, f64::NAN];
    for n in 0..6 { case!("partial order", n); for x in &[0.0, 1.5, f64::NAN] { ck!(al::lower_bound(&f[..n], x) <= n && al::lower_bound_raw_ptr(&f[..n], x) <= n && al::lower_bound_prange(&f[..n], x) <= n, "outside"); } }
    let vals = [1.0, 2.0, f64::NAN, 4.0];
    for n in 0..6u32 { for code in 0..4usize.pow(n) {
        let d: Vec<usize> = (0..n).map(|k| code / 4usize.pow(k) % 4).collect();
        let v: Vec<f64> = d.iter().map(|k| vals[*k]).collect();
        for (xi, x) in [0.5, 1.0, 1.5, 2.0, 3.0, f64::NAN, 5.0].iter().enumerate() {
            let want = v.iter().take_while(|y| *y < x).count();
            if v.iter().filter(|y| *y < x).count() != want { continue; }    // not partitioned
            case!("partially ordered", n, xi; d);
            eq!(al::lower_bound(&v, x), want, "lower_bound"); eq!(al::lower_bound_prange(&v, x), want, "lower_bound_prange"); eq!(al::lower_bound_raw_ptr(&v, x), want, "lower_bound_raw_ptr");
        }
    } }
    for n in sizes() { case!("units", n); eq!(al::lower_bound(units(n), &()), 0, "lower_bound of units"); 
        eq!(al::binary_search_by(units(n), |_| Ordering::Less), Err(n), "binary_search_by, all less"); eq!(al::binary_search_by(units(n), |_| Ordering::Greater), Err(0), "binary_search_by, all greater");
        if n > 0 { ck!(al::binary_search(units(n), &()).map_or(false, |k| k < n), "binary_search of units"); } }
    for &n in &[1000usize, 4096, 4097, 65535] { let v: Vec<u16> = (0..n).map(|k| k as u16).collect(); for &x in &[0usize, 1, n / 2, n - 1, n.min(65535)] { case!("long", n, x); let x16 = x as u16; eq!(al::lower_bound(&v, &x16), x, "lower_bound"); eq!(al::lower_bound_prange(&v, &x16), x, "lower_bound_prange"); eq!(al::lower_bound_raw_ptr(&v, &x16), x, "lower_bound_raw_ptr"); eq!(al::lower_bound_pslice(&v, |y| *y < x16), x, "lower_bound_pslice"); eq!(al::binary_search(&v, &x16), if x < n { Ok(x) } else { Err(n) }, "binary_search"); } }
}

// ---------------------------------------------------------------- C17
const MERGES: [(&str, fn(&mut [El], usize, &mut [El]) -> Result<(), al::AlgorithmError>); 2] = [("merge_internal_indices", al::merge_internal_indices::<El>), ("merge_internal_ranges", al::merge_internal_ranges::<El>)];
fn merge(k: usize, left: &[i32], right: &[i32], at: usize, extra: usize, judge: bool) {
    // the buffer's elements come after the data's; `at` may differ from left.len() to make bad calls
    let keys: Vec<i32> = left.iter().chain(right).cloned().collect();
    let n = keys.len();
    let m = extra;
    let mut all = keys.clone(); all.extend((0..m).map(|i| [9, -5, 1, 0][i % 4]));
    case!(MERGES[k].0, n, at, m; keys);
    reset();
    let mut v = els(&all);
    let mut b = v.split_off(n);
    let r = MERGES[k].1(&mut v, at, &mut b);
    reset();
    no_drops(MERGES[k].0);
    if at > n || at > m {
        ck!(r.is_err(), "no error although left_end {} exceeds data {} or buffer {}", at, n, m);
        eq!(ids(&v), (0..n).collect::<Vec<_>>(), "data after an error"); eq!(ids(&b), (n..n + m).collect::<Vec<_>>(), "buffer after an error");
    } else {
        ck!(r.is_ok(), "error for left_end {}, data {}, buffer {}", at, n, m);
        let mut s = ids(&v); s.sort(); eq!(s, (0..n).collect::<Vec<_>>(), "elements of the data");
        let mut s = ids(&b); s.sort(); eq!(s, (n..n + m).collect::<Vec<_>>(), "elements of the buffer");
        eq!(ids(&b[at..]), (n + at..n + m).collect::<Vec<_>>(), "buffer beyond the used prefix");
        if judge { ck!(v.windows(2).all(|w| w[0].key <= w[1].key), "{} left {:?}", MERGES[k].0, v.iter().map(|e| e.key).collect::<Vec<_>>()); }
    }
    let mut w = v; w.append(&mut b);
    drop_once(w, n + m, MERGES[k].0);
}
fn each_sorted<F: FnMut(&[i32])>(n: usize, base: i32, f: &mut F) { each_keys(n, base, |k| if k.windows(2).all(|w| w[0] <= w[1]) { f(k) }) }
pub fn c17() {
    long_merges();
    let nn = if thorough() { 6 } else { 5 };
    for k in 0..2 {
        for l in 0..=nn { for r in 0..=nn { if l + r == 0 { continue }
            each_sorted(l, 3, &mut |a| each_sorted(r, 3, &mut |b| for extra in 0..3 { merge(k, a, b, l, l + extra, true) }));
        } }
        // distinct keys, every interleaving
        for n in 1..=if thorough() { 12 } else { 9 } { for bits in 0..1u32 << n {
            let a: Vec<i32> = (0..n).filter(|i| bits >> i & 1 == 1).collect(); let b: Vec<i32> = (0..n).filter(|i| bits >> i & 1 == 0).collect();
            merge(k, &a, &b, a.len(), a.len() + (bits % 3) as usize, true);
        } }
        for n in 1..7usize { for at in 0..n + 4 { for m in 0..n + 3 { let keys: Vec<i32> = (0..n as i32).collect(); merge(k, &keys, &[], at, m, false); } for m in 0..n { merge(k, &vec![1; n], &[], usize::MAX - at, m, false) } } }
        let mut g = rng(17);
        for _ in 0..if thorough() { 20000 } else { 3000 } {
            let n = 1 + g.below(60); let b = 1 + g.below(n + 3);
            let mut v: Vec<i32> = (0..n).map(|_| g.below(b) as i32).collect();
            let at = g.below(n + 1); v[..at].sort(); v[at..].sort();
            merge(k, &v[..at], &v[at..], at, at + g.below(3), true);
        }
    }
}

fn long_merges() {
    let mut g = rng(171);
    for &n in &[300usize, 66_001, 140_000] { for m in 0..4 {
        let at = [n / 2, 256.min(n), n - 257, 65_537 % n][m];
        let mut v: Vec<u32> = (0..n).map(|_| if m == 3 { g.below(50) as u32 } else { (g.next() >> 34) as u32 }).collect();
        v[..at].sort(); v[at..].sort();
        let mut want = v.clone(); want.sort();
        let buf: Vec<u32> = (0..at as u32 + 3).collect();
        for k in 0..2 {
            case!("long merge", n, at, k);
            let (mut x, mut b) = (v.clone(), buf.clone());
            let r = if k == 0 { al::merge_internal_indices(&mut x, at, &mut b) } else { al::merge_internal_ranges(&mut x, at, &mut b) };
            ck!(r.is_ok(), "error"); let bad = (0..n).find(|&k| x[k] != want[k]); ck!(bad.is_none(), "{} of {} numbers is wrong at {:?}", MERGES[k].0, n, bad);
            eq!(&b[at..], &buf[at..], "buffer beyond the used prefix"); b.sort(); ck!(b == buf, "the buffer's elements changed");
        }
    } }
}

// ---------------------------------------------------------------- C21
fn wild_run(what: &'static str, f: &dyn Fn(&mut [El], &mut [El]), keys: &[i32], m: usize, script: u64, panic_at: usize, key_mode: bool) -> usize {
    let n = keys.len();
    let mut all = keys.to_vec(); all.extend(vec![0; m]);
    case!(what, n, m, script, panic_at, key_mode; keys);
    let mut v = els(&all);
    let mut b = v.split_off(n);
    reset();
    watch(&v, n + m); watch(&b, n + m);
    BITS.with(|x| x.set(script)); PANIC_AT.with(|p| p.set(panic_at)); if !key_mode { MODE.with(|x| x.set(Mode::Script)) }
    EXPECT.store(panic_at != usize::MAX, std::sync::atomic::Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut v, &mut b)));
    EXPECT.store(false, std::sync::atomic::Ordering::Relaxed);
    let calls = CALLS.with(|c| c.get());
    if r.is_err() && !(panic_at < calls) { fail("panicked by itself".into()) }
    whole("afterwards");
    reset();
    no_drops(what);
    if !what.starts_with("merge") { let mut s = ids(&v); s.sort(); eq!(s, (0..n).collect::<Vec<_>>(), "elements"); }
    let mut w = v; w.append(&mut b);
    drop_once(w, n + m, what);
    calls
}
pub fn c21() {
    let mut g = rng(21);
    let mut fs: Vec<(&'static str, Box<dyn Fn(&mut [El], &mut [El])>, bool, bool)> = Vec::new();
    for k in 0..SORTS.len() { let f = SORTS[k].1; fs.push((name(k), Box::new(move |v, _| f(v)), k < 3, false)); }
    fs.push(("heapify", Box::new(|v, _| al::heapify(v)), false, false));
    for k in 0..2 { for at in 0..=5usize { let f = MERGES[k].1; fs.push((MERGES[k].0, Box::new(move |v, b| { let at = at * v.len() / 5; let _ = f(v, at, b); }), false, true)); } }
    for (what, f, quick, merge) in &fs {
        // every script of answers on small inputs
        let nn = if thorough() { 6 } else { 5 };
        for n in 1..=nn { let bits = if *merge { 2 * n } else { (n * (n + 1) / 2).min(if thorough() { 15 } else { 11 }) };
            for s in 0..1u64 << bits { wild_run(what, f, &vec![0; n], if *merge { n + 1 } else { 0 }, s, usize::MAX, false); if s % 5 == 0 { wild_run(what, f, &vec![0; n], if *merge { n } else { 0 }, s | s << 40 | 1 << 63, usize::MAX, false); } } }
        let rounds = if deep() { 12000 } else if thorough() { 2500 } else if *merge { 150 } else { 1200 };
        for i in 0..rounds {
            let n = if i % 40 == 7 { [48, 49, 64, 65, 100, 128, 129, 200, 250][g.below(9)] } else if *quick { 25 + g.below(40) } else { 1 + g.below(24) };
            let m = if *merge { n + g.below(2) } else { 0 };
            let mut keys = inputs(&mut g, n);
            if *merge { keys.sort() }
            let s = match i % 4 { 0 => 0, 1 => !0 >> 1, _ => g.next() };
            wild_run(what, f, &keys, m, s, usize::MAX, false);
            // a panic at some comparison
            let key = i % 3 != 0;
            let calls = if key { wild_run(what, f, &keys, m, s, usize::MAX, true) } else { 2 * n };
            wild_run(what, f, &keys, m, s, g.below(calls + 1), key);
        }
        for n in 2..6usize { let keys: Vec<i32> = (0..n as i32).rev().collect(); for at in 0..20 { wild_run(what, f, &keys, if *merge { n } else { 0 }, 0, at, true); } }
    }
}
