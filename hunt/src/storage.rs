//! C06, C09 - C12: element access, growing, twins, scans, in-place moves.
use crate::particles::each_range;
use crate::rt::*;
use indexing::container_traits::*;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use std::cell::RefCell;
use std::cmp::min;
use std::fmt::Debug;

/// An element that knows who it is and notices when it is dropped.
pub struct El { pub key: i32, pub id: usize, pub pad: [u8; 3] }
thread_local!(pub static DROPS: RefCell<Vec<u32>> = RefCell::new(Vec::new()));
impl Drop for El { fn drop(&mut self) { let _ = DROPS.try_with(|d| if let Some(x) = d.borrow_mut().get_mut(self.id) { *x += 1 }); } }
impl El { pub fn new(key: i32, id: usize) -> El { El { key, id, pad: [id as u8; 3] } } }
pub fn els(keys: &[i32]) -> Vec<El> {
    DROPS.with(|d| { let mut d = d.borrow_mut(); d.clear(); d.resize(keys.len() + 64, 0) });
    keys.iter().enumerate().map(|(i, &k)| El::new(k, i)).collect()
}
pub fn no_drops(what: &str) { DROPS.with(|d| if let Some(i) = d.borrow().iter().position(|&x| x != 0) { if !bounds() { fail(format!("{}: element {} was dropped", what, i)) } }) }
/// drop v and check that each element was dropped exactly once
pub fn drop_once(v: Vec<El>, n: usize, what: &str) {
    drop(v);
    DROPS.with(|d| for (i, &x) in d.borrow().iter().enumerate() { if x != (i < n) as u32 && !bounds() { fail(format!("{}: element {} dropped {} times in the end", what, i, x)) } });
}
pub fn ids(v: &[El]) -> Vec<usize> { v.iter().map(|x| x.id).collect() }

// ---------------------------------------------------------------- C06
fn same<T: PartialEq + Debug>(got: &[T], want: &[T], base: *const T, at: usize, what: &str) {
    eq!(got.len(), want.len(), "{}: length", what);
    if std::mem::size_of::<T>() > 0 && !got.is_empty() { eq!((got.as_ptr() as usize).wrapping_sub(base as usize), at * std::mem::size_of::<T>(), "{}: address", what); }
    eq!(got, want, "{}", what);
}
fn reads<'id, A: Contiguous<Item = T> + GetUnchecked, T: PartialEq + Debug, M>(c: &Container<'id, A, M>, v: &[T], base: *const T, tag: &'static str) {
    let n = v.len();
    case!(tag, n);
    same(&c[..], v, base, 0, "[..]");
    for k in 0..n { if let Ok(i) = c.vet(k) {
        case!(tag, n, k);
        same(std::slice::from_ref(&c[i]), &v[k..k + 1], base, k, "[i]");
        same(&c[i..], &v[k..], base, k, "[i..]"); same(&c[..i], &v[..k], base, 0, "[..i]");
    } }
    each_range(c, n, |r, s, e| {
        case!(tag, n, s, e);
        same(&c[r], &v[s..e], base, s, "[r]");
        let (f, l) = (r.first(), r.past_the_end());
        same(&c[f..], &v[s..], base, s, "[edge..]"); same(&c[..f], &v[..s], base, 0, "[..edge]");
        same(&c[l..], &v[e..], base, e, "[edge..]"); same(&c[..l], &v[..e], base, 0, "[..edge]");
        if let Ok(q) = r.nonempty() { same(&c[q], &v[s..e], base, s, "[r], nonempty"); same(std::slice::from_ref(&c[q.first()]), &v[s..s + 1], base, s, "[first]"); same(std::slice::from_ref(&c[q.last()]), &v[e - 1..e], base, e - 1, "[last]"); }
    });
}
/// every mutable access writes exactly its positions
fn writes<'id, A: ContiguousMut<Item = u32> + GetUncheckedMut, M>(c: &mut Container<'id, A, M>, n: usize, raw: *const u32, around: usize, tag: &'static str) {
    let all = |lo: usize, hi: usize| -> Vec<u32> { unsafe { std::slice::from_raw_parts(raw.sub(lo), lo + hi) }.to_vec() };
    let look = || { let mut w = all(around, n + around); w.shrink_to_fit(); w };
    let mut seq = 1000u32;
    macro_rules! wr { ($m:expr, $s:expr, $e:expr, $what:expr) => {{
        let mut want = look();
        let m: &mut [u32] = $m;
        eq!(m.len(), $e - $s, "{}: length", $what);
        for x in m.iter_mut() { seq += 1; *x = seq; }
        for (k, x) in want[around + $s..around + $e].iter_mut().enumerate() { *x = seq - ($e - $s - 1 - k) as u32; }
        let got = look();
        eq!(got, want, "{}: storage (with {} guard elements on each side) after writing {}..{}", $what, around, $s, $e);
    }} }
    for k in 0..n { if let Ok(i) = c.vet(k) {
        case!(tag, n, k);
        wr!(std::slice::from_mut(&mut c[i]), k, k + 1, "[i]");
        wr!(&mut c[i..], k, n, "[i..]"); wr!(&mut c[..i], 0usize, k, "[..i]");
    } }
    for s in 0..=n { for e in s..=n { if let Ok(r) = c.vet_range(s..e) {
        case!(tag, n, s, e);
        wr!(&mut c[r], s, e, "[r]");
        wr!(&mut c[r.first()..], s, n, "[edge..]"); wr!(&mut c[..r.past_the_end()], 0usize, e, "[..edge]");
        if let Ok(q) = r.nonempty() { wr!(&mut c[q], s, e, "[r], nonempty"); wr!(std::slice::from_mut(&mut c[q.last()]), e - 1, e, "[last]"); }
    } } }
}
fn raw_traits<C: ?Sized + Contiguous<Item = T> + GetUnchecked, T: PartialEq + Debug>(c: &C, v: &[T], base: *const T, tag: &'static str) {
    let n = v.len();
    case!(tag, n);
    let sz = std::mem::size_of::<T>();
    eq!(c.base_len(), n, "base_len");
    eq!(c.begin() as usize, if sz == 0 { c.begin() as usize } else { base as usize }, "begin");
    eq!(c.end() as usize, c.begin() as usize + n * sz, "end");
    same(c.as_slice(), v, base, 0, "as_slice");
    for k in 0..n { same(std::slice::from_ref(unsafe { c.xget_unchecked(k) }), &v[k..k + 1], base, k, "xget_unchecked"); }
}
fn raw_traits_mut<C: ?Sized + ContiguousMut<Item = u32> + GetUncheckedMut>(c: &mut C, n: usize, tag: &'static str) {
    case!(tag, n);
    let (b, e) = (c.begin() as usize, c.end() as usize);
    eq!(c.begin_mut() as usize, b, "begin_mut"); eq!(c.end_mut() as usize, e, "end_mut");
    let m = c.as_mut_slice();
    eq!((m.as_ptr() as usize, m.len()), (b, n), "as_mut_slice");
    for (k, x) in m.iter_mut().enumerate() { *x = 50 + k as u32; }
    for k in 0..n { let p = unsafe { c.xget_unchecked_mut(k) }; eq!((p as *const u32 as usize, *p), (b + 4 * k, 50 + k as u32), "xget_unchecked_mut({})", k); *p = 7 * k as u32; }
    eq!(c.as_slice(), &(0..n as u32).map(|k| 7 * k).collect::<Vec<_>>()[..], "after writing");
}
pub fn access<T: PartialEq + Debug + Clone>(n: usize, f: fn(usize) -> T) {
    let back: Vec<T> = (0..n + 4).map(f).collect();
    let v: Vec<T> = back[2..n + 2].to_vec();
    let s = &back[2..n + 2];
    scope(s, |c| reads(&c, s, s.as_ptr(), "&[T]"));
    scope(s, |c| reads(&c.only_index(), s, s.as_ptr(), "&[T] only_index"));
    scope(&s, |c| reads(&c, s, s.as_ptr(), "&&[T]"));
    scope(&v, |c| reads(&c, &v, v.as_ptr(), "&Vec"));
    scope(s, |c| { if let Ok(t) = c.make_twin(&v[..]) { reads(&t, &v, v.as_ptr(), "twin") } reads(&c.clone(), s, s.as_ptr(), "clone") });
    raw_traits(s, s, s.as_ptr(), "[T] traits"); raw_traits(&s, s, s.as_ptr(), "&[T] traits"); raw_traits(&v, &v, v.as_ptr(), "Vec traits"); raw_traits(&&v, &v, v.as_ptr(), "&Vec traits");
    let mut w = Vec::with_capacity(n + 7); w.extend_from_slice(&v);
    let p = w.as_ptr();
    raw_traits(&w, &v, p, "Vec with spare capacity, traits");
    { let mut x = w.clone(); let p = x.as_ptr(); raw_traits(&&mut x, &v, p, "&mut Vec traits"); raw_traits(&&mut x[..], &v, p, "&mut [T] traits"); scope(&mut x, |c| reads(&c, &v, p, "&mut Vec")); scope(&mut x[..], |c| reads(&c, &v, p, "&mut [T]")); }
    scope(w, |c| reads(&c, &v, p, "Vec"));
}
pub fn c06() {
    for n in 0..if thorough() { 9 } else { 6 } {
        access(n, |k| k as u8 ^ 0x5a); access(n, |k| 3 * k as u32 + 1); access(n, |k| (k as u64, k as u8)); access(n, |_| ()); access(n, |k| [k as u8; 3]); access(n, |k| format!("s{}", k)); access(n, |k| [k as u64; 9]);
        let mut back: Vec<u32> = (0..n as u32 + 6).collect();
        { let s = &mut back[3..n + 3]; let p = s.as_ptr(); scope(s, |mut c| writes(&mut c, n, p, 3, "&mut [T]")); }
        { let s = &mut back[3..n + 3]; let p = s.as_ptr(); scope(s, |c| writes(&mut c.only_index(), n, p, 3, "&mut [T] only_index")); }
        { let s = &mut &mut back[3..n + 3]; let p = s.as_ptr(); scope(s, |mut c| writes(&mut c, n, p, 3, "&mut &mut [T]")); }
        { let s = vec![0u8; n]; let s2 = &mut back[3..n + 3]; let p = s2.as_ptr(); scope(&s[..], |c| if let Ok(mut t) = c.make_twin(s2) { writes(&mut t, n, p, 3, "twin") }) }
        let mut v: Vec<u32> = (0..n as u32).collect();
        let p = v.as_ptr();
        scope(&mut v, |mut c| { writes(&mut c, n, p, 0, "&mut Vec"); c[..].iter_mut().for_each(|x| *x = 1); eq!(&c[..], &vec![1; n][..], "[..] mut") });
        let p = v.as_ptr();
        scope(v.clone(), |mut c| { let p2 = c[..].as_ptr(); writes(&mut c, n, p2, 0, "Vec"); let _ = p; });
        for spare in 1..4 { let mut w = Vec::with_capacity(n + spare * spare); w.extend(0..n as u32); raw_traits_mut(&mut w, n, "Vec with spare capacity, traits mut"); let p = w.as_ptr(); scope(&mut w, |mut c| { writes(&mut c, n, p, 0, "&mut Vec with spare capacity"); }); }
        raw_traits_mut(&mut v, n, "Vec traits mut"); raw_traits_mut(&mut &mut v, n, "&mut Vec traits mut"); raw_traits_mut(&mut v[..], n, "[T] traits mut"); raw_traits_mut(&mut &mut v[..], n, "&mut [T] traits mut");
    }
    // long units: lengths and offsets that do not fit 32 bits
    for &n in &[BIG, BIG - 1, 1 << 33] { scope(units(n), |c| each_range(&c, n, |r, s, e| {
        case!("units", n, s, e);
        eq!(c[r].len(), e - s, "[r]"); eq!(c[r.first()..].len(), n - s, "[edge..]"); eq!(c[..r.first()].len(), s, "[..edge]"); eq!(c[..].len(), n, "[..]");
    })) }
}

// ---------------------------------------------------------------- C09
fn grow<'id, A: Pushable<Item = u32> + Contiguous<Item = u32> + GetUncheckedMut>(mut c: Container<'id, A, indexing::container::OnlyIndex>, mut v: Vec<u32>, ops: &[(usize, u32)], tag: &'static str) {
    let mut old: Vec<Index<'id>> = Vec::new();
    let mut oldr: Vec<Range<'id>> = Vec::new();
    for (step, &(pos, x)) in ops.iter().enumerate() {
        let n = v.len();
        case!(tag, n, step, pos, x, ops.len());
        for k in 0..n { if let Ok(i) = c.vet(k) { old.push(i) } }
        oldr.push(c.range());
        if pos > n { // push
            let i = c.push(x); v.push(x);
            eq!(ii(&i, n + 1), n, "index returned by push");
            if ii(&i, n + 1) == n { eq!(c[i], x, "element at the index returned by push"); }
            old.push(i);
        } else if pos == n { let e = c.range().past_the_end(); c.insert(e, x); v.insert(n, x); }
        else if step % 2 == 0 { if let Ok(i) = c.vet(pos) { c.insert(i, x); v.insert(pos, x); } }
        else if let Ok(r) = c.vet_range(pos..n) { c.insert(r.first(), x); v.insert(pos, x); }
        eq!(c.len(), v.len(), "length after growing");
        eq!(&c[..], &v[..], "contents after growing at {}", pos);
        for i in &old { let k = ii(i, c.len()); if k < v.len() { eq!(c[*i], v[k], "old index {}", k) } }
        for r in &oldr { let (s, e) = ir(r, c.len()); if e <= v.len() { eq!(&c[*r], &v[s..e], "old range") } }
    }
}
pub fn c09() {
    let mut g = rng(9);
    for n in 0..7usize {
        for spare in 0..3usize {
            let mk = || { let mut w = Vec::with_capacity(n + spare); w.extend(0..n as u32); w };
            for pos in 0..n + 2 { for pos2 in 0..n + 3 {
                let ops = [(pos, 90), (pos2, 91), (n + 9, 92)];
                scope(mk(), |c| grow(c.only_index(), mk(), &ops, "Vec"));
                let mut w = mk(); scope(&mut w, |c| grow(c.only_index(), mk(), &ops, "&mut Vec"));
                let mut w = mk(); scope(&mut &mut w, |c| grow(c.only_index(), mk(), &ops, "&mut &mut Vec"));
                let mut u = mk(); let k = u.len(); let i = Pushable::push(&mut u, 5); eq!((i, u.len()), (k, k + 1), "Pushable::push"); 
                if pos <= n { unsafe { Pushable::insert_unchecked(&mut u, pos, 6) }; let mut w = mk(); w.push(5); w.insert(pos, 6); eq!(u, w, "insert_unchecked({})", pos); }
            } }
        }
    }
    for _ in 0..if thorough() { 3000 } else { 300 } {
        let n = g.below(5);
        let mut m = n;
        let ops: Vec<(usize, u32)> = (0..12).map(|k| { let p = g.below(m + 2); m += 1; (p, 100 + k) }).collect();
        scope((0..n as u32).collect::<Vec<_>>(), |c| grow(c.only_index(), (0..n as u32).collect(), &ops, "Vec, random"));
    }
    // elements that own something
    for n in 0..6usize { for pos in 0..=n + 1 {
        let keys: Vec<i32> = (0..n as i32).collect();
        let v = els(&keys);
        case!("grow with owning elements", n, pos);
        let mut w = v;
        scope(&mut w, |c| { let mut c = c.only_index(); if pos > n { c.push(El::new(77, n)); } else if let Ok(r) = c.vet_range(pos..n) { c.insert(r.first(), El::new(77, n)) } });
        no_drops("growing");
        let mut want: Vec<usize> = (0..n).collect(); want.insert(min(pos, n), n);
        eq!(ids(&w), want, "identities after growing");
        drop_once(w, n + 1, "growing");
    } }
}

// ---------------------------------------------------------------- C10
#[derive(PartialEq, Debug)] struct Is(bool);
#[allow(dead_code)]
fn fixed_probes() {
    // a container that can grow must not be able to have twins or clones
    macro_rules! p { ($t:ty) => {{
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        trait A { fn probe(&self) -> bool; }
        impl<T: ?Sized + FixedLength> A for W<T> { fn probe(&self) -> bool { true } }
        trait B { fn probe(&self) -> bool; }
        impl<T: ?Sized> B for &W<T> { fn probe(&self) -> bool { false } }
        let w = W::<$t>(std::marker::PhantomData);
        (&w).probe()
    }} }
    case!("FixedLength", 2);
    eq!(Is(p!(Vec<u8>)), Is(false), "Vec counts as fixed length");
    eq!(Is(p!(&mut Vec<u8>)), Is(false), "&mut Vec counts as fixed length");
    eq!(Is(p!([u8])), Is(true), "[T] does not count as fixed length");
    eq!(Is(p!(&[u8])), Is(true), "&[T] does not count as fixed length");
    eq!(Is(p!(&mut [u8])), Is(true), "&mut [T] does not count as fixed length");
}
pub fn c10() {
    fixed_probes();
    for n in 0..8usize { for m in 0..8usize {
        let a: Vec<u32> = (0..n as u32).collect();
        let mut b: Vec<u64> = (0..m as u64).map(|x| 100 + x).collect();
        macro_rules! t { ($arr:expr, $c:expr, $what:expr) => {{
            case!($what, n, m);
            match $c.make_twin($arr) {
                Ok(t) => {
                    ck!(n == m, "twin of lengths {} and {} admitted", n, m);
                    eq!(t.len(), $c.len(), "length of the twin");
                    if n == m {
                        for i in $c.range() { eq!(t[i], 100 + i.integer() as u64, "element {} of the twin", i.integer()); }
                        for s in 0..=n { for e in s..=n { if let Ok(r) = $c.vet_range(s..e) { ir(&r, t.len()); eq!(&t[r], &(s..e).map(|x| 100 + x as u64).collect::<Vec<_>>()[..], "slice of the twin"); } } }
                    }
                }
                Err(_) => ck!(n != m, "twin of lengths {} and {} refused", n, m),
            }
        }} }
        let b2 = b.clone();
        scope(&a[..], |c| { t!(&b2[..], c, "twin &[T], &[T]"); t!(&&b2[..], c, "twin &[T], &&[T]"); let oi = c.clone().only_index(); t!(&b2[..], oi, "twin only_index"); if let Ok(t2) = c.make_twin(&a[..]) { t!(&b2[..], t2, "twin of a twin") } });
        scope(&a[..], |c| t!(&mut b[..], c, "twin &[T], &mut [T]"));
        let mut a2 = a.clone();
        scope(&mut a2[..], |c| { t!(&mut b[..], c, "twin &mut [T], &mut [T]"); t!(&b2[..], c, "twin &mut [T], &[T]") });
        scope(&a[..], |c| { let d = c.clone(); case!("clone", n); eq!(d.len(), n, "length of a clone"); eq!(&d[..], &c[..], "elements of a clone"); let mut e2 = d.clone(); e2.clone_from(&c); eq!((e2.len(), e2[..].as_ptr()), (n, c[..].as_ptr()), "clone_from"); eq!(d[..].as_ptr(), c[..].as_ptr(), "storage of a clone"); each_range(&c, n, |r, _, _| eq!(&d[r], &c[r], "slice of a clone")); });
    } }
    for &n in &[BIG, BIG - 1, 1 << 32, 0] { for &m in &[BIG, BIG - 1, 1 << 32, 0, 1, 1 << 33] { scope(units(n), |c| { case!("long twins", n, m); ck!(c.make_twin(units(m)).is_ok() == (n == m), "twin of lengths {} and {}", n, m) }) } }
}

// ---------------------------------------------------------------- C11
pub fn c11() {
    let nn = if thorough() { 9 } else { 7 };
    for n in 0..=nn { for bits in 0..1u32 << n {
        let v: Vec<u8> = (0..n).map(|k| (bits >> k & 1) as u8).collect();
        let run = |s: usize, e: usize| (s..e).take_while(|&k| v[k] == 1).count();
        let runr = |s: usize, e: usize| (s..e).rev().take_while(|&k| v[k] == 1).count();
        let order = |idx: Vec<usize>, hits: usize| -> Vec<usize> { let l = min(idx.len(), hits + 1); idx[..l].to_vec() };
        scope(&v[..], |c| {
            let base = v.as_ptr() as usize;
            let tr: RefCell<Vec<usize>> = RefCell::new(vec![]);
            let f = |x: &u8| { tr.borrow_mut().push(x as *const u8 as usize - base); *x == 1 };
            for i in c.range() {
                let k = i.integer();
                case!("scan_from", n, k, bits);
                let r = c.scan_from(i, f); let h = run(k + 1, n);
                eq!(ir(&r, n), (k, k + 1 + h), "scan_from"); ck!(ne(&r), "scan_from includes its start");
                eq!(tr.borrow_mut().drain(..).collect::<Vec<_>>(), order((k + 1..n).collect(), h), "elements asked by scan_from");
                case!("scan_from_rev", n, k, bits);
                let r = c.scan_from_rev(i, f); let h = runr(0, k);
                eq!(ir(&r, n), (k - h, k + 1), "scan_from_rev");
                eq!(tr.borrow_mut().drain(..).collect::<Vec<_>>(), order((0..k).rev().collect(), h), "elements asked by scan_from_rev");
            }
            each_range(&c, n, |r, s, e| {
                case!("scan_range", n, s, e, bits);
                let h = run(s, e);
                let (a, b) = c.scan_range(r, f);
                eq!((ir(&a, n), ir(&b, n)), ((s, s + h), (s + h, e)), "scan_range");
                eq!(tr.borrow_mut().drain(..).collect::<Vec<_>>(), order((s..e).collect(), h), "elements asked by scan_range");
                if let Ok(q) = r.nonempty() {
                    let (a, b) = c.scan_range(q, f);
                    eq!((ir(&a, n), ir(&b, n)), ((s, s + h), (s + h, e)), "scan_range, nonempty");
                    tr.borrow_mut().clear();
                }
            });
            crate::pointers::scans(&c, &v, bits);
        });
    } }
    // long scans, only_index containers and other storages
    for &(n, at) in &[(100usize, 100usize), (100, 99), (100, 37), (257, 256), (257, 0), (257, 255), (65_540, 65_539), (65_540, 3), (65_540, 65_540), (140_000, 70_001)] {
        let v: Vec<u64> = (0..n).map(|k| (k != at) as u64).collect();
        scope(v, |c| { let c = c.only_index(); if let (Ok(i), Ok(l)) = (c.vet(0), c.vet(n - 1)) {
            case!("long scan", n, at);
            eq!(ir(&c.scan_from(i, |x| *x == 1), n), (0, if at == 0 { n } else { at }), "scan_from");
            eq!(ir(&c.scan_from_rev(l, |x| *x == 1), n), (if at >= n - 1 { 0 } else { at + 1 }, n), "scan_from_rev");
            let (a, b) = c.scan_range(c.range(), |x| *x == 1);
            eq!((ir(&a, n), ir(&b, n)), ((0, at), (at, n)), "scan_range");
        } });
        let v: Vec<u8> = (0..n).map(|k| (k != at) as u8).collect();
        scope(&v[..], |c| crate::pointers::long_scans(&c, &v, at));
    }
}

// ---------------------------------------------------------------- C12
fn moves<'id, A: ContiguousMut<Item = El> + GetUncheckedMut, M>(c: &mut Container<'id, A, M>, n: usize, which: usize) -> Vec<usize> {
    let mut want: Vec<usize> = c[c.range()].iter().map(|x| x.id).collect();
    macro_rules! now { ($w:expr) => { no_drops($w); eq!(c[c.range()].iter().map(|x| x.id).collect::<Vec<_>>(), want, $w); } }
    let ix: Vec<Index<'id>> = c.range().into_iter().collect();
    if which == 0 { for &i in &ix { for &j in &ix {
        case!("swap", n, i.integer(), j.integer());
        c.swap(i, j); want.swap(i.integer(), j.integer()); now!("swap");
    } } }
    let mut rs = Vec::new(); each_range(c, n, |r, s, e| rs.push((r, s, e)));
    for &(r, s, e) in &rs {
        if which == 1 { case!("rotate1_up", n, s, e); c.rotate1_up(r); if s < e { want[s..e].rotate_right(1) } now!("rotate1_up"); }
        if which == 2 { case!("rotate1_down", n, s, e); c.rotate1_down(r); if s < e { want[s..e].rotate_left(1) } now!("rotate1_down"); }
        if let Ok(q) = r.nonempty() {
            if which == 1 { case!("rotate1_up nonempty", n, s, e); c.rotate1_up(q); want[s..e].rotate_right(1); now!("rotate1_up, nonempty"); }
            if which == 2 { case!("rotate1_down nonempty", n, s, e); c.rotate1_down(q); want[s..e].rotate_left(1); now!("rotate1_down, nonempty"); }
        }
    }
    want
}
fn twice<'id, P: Mk, Q: Mk>(c: &mut Container<'id, &mut [u32]>, base: usize, n: usize, r: Range<'id, P>, q: Range<'id, Q>) {
    let (s, e, a, b) = (r.start(), r.end(), q.start(), q.end());
    case!("index_twice", n, s, e, P::NE, a, b, Q::NE);
    match c.index_twice(r, q) {
        Ok((x, y)) => {
            ck!(e <= a, "index_twice accepted {}..{} and {}..{}", s, e, a, b);
            eq!((x.as_ptr() as usize, x.len()), (base + 4 * s, e - s), "first part"); eq!((y.as_ptr() as usize, y.len()), (base + 4 * a, b - a), "second part");
        }
        Err(_) => ck!(e > a, "index_twice refused {}..{} and {}..{}", s, e, a, b),
    }
    case!("zip_mut_raw", n, s, e, P::NE, a, b, Q::NE);
    let mut seen = vec![];
    c.zip_mut_raw(r, q, |x, y| seen.push((x as usize, y as usize)));
    let want: Vec<(usize, usize)> = (0..min(e - s, b - a)).map(|k| (base + 4 * (s + k), base + 4 * (a + k))).collect();
    eq!(seen, want, "pairs visited by zip_mut_raw");
}
pub fn c12() {
    for n in 0..if thorough() { 9usize } else { 7 } {
        for which in 0..3 {
            let keys: Vec<i32> = (0..n as i32).collect();
            let mut v = els(&keys);
            let w = scope(&mut v[..], |mut c| moves(&mut c, n, which)); eq!(ids(&v), w, "in the end");
            let w = scope(&mut v, |c| moves(&mut c.only_index(), n, which)); eq!(ids(&v), w, "in the end");
            drop_once(v, n, "moves");
            let v = els(&keys); scope(v, |mut c| { moves(&mut c, n, which); }); 
            DROPS.with(|d| for (i, &x) in d.borrow().iter().enumerate() { ck!(x == (i < n) as u32, "element {} dropped {} times in the end", i, x) });
        }
        let keys: Vec<i32> = (0..n as i32).collect();
        let mut v = els(&keys);
        crate::pointers::moves(&mut v, n);
        drop_once(v, n, "pointer moves");
        let mut back: Vec<u32> = (0..n as u32 + 4).collect();
        let base = back[2..].as_ptr() as usize;
        scope(&mut back[2..n + 2], |mut c| {
            let mut rs = Vec::new(); each_range(&c, n, |r, _, _| rs.push(r));
            for &r in &rs { for &q in &rs {
                twice(&mut c, base, n, r, q);
                if let Ok(r1) = r.nonempty() { twice(&mut c, base, n, r1, q); if let Ok(q1) = q.nonempty() { twice(&mut c, base, n, r1, q1) } }
                if let Ok(q1) = q.nonempty() { twice(&mut c, base, n, r, q1) }
            } }
        });
        eq!(back, (0..n as u32 + 4).collect::<Vec<_>>(), "storage after index_twice and zip_mut_raw");
        let mut big: Vec<[u64; 17]> = (0..n as u64).map(|k| [k; 17]).collect();
        scope(&mut big[..], |mut c| { let r = c.range(); case!("rotate big", n); c.rotate1_up(r); c.rotate1_down(r); if let Ok(q) = r.nonempty() { c.swap(q.first(), q.last()) } });
        if n > 0 { big.swap(0, n - 1) } eq!(big, (0..n as u64).map(|k| [k; 17]).collect::<Vec<_>>(), "rotate up, down and swap twice");
        let mut u = vec![(); n];
        scope(&mut u[..], |mut c| { let r = c.range(); case!("units", n); c.rotate1_up(r); c.rotate1_down(r); if let Ok(q) = r.nonempty() { c.swap(q.first(), q.last()) } let k = c.index_twice(r.split_at(n / 2).0, r.split_at(n / 2).1).map(|(a, b)| (a.len(), b.len())).ok(); eq!(k, Some((n / 2, n - n / 2)), "index_twice over units"); });
    }
    for &n in &[64usize, 257] {
        let mut v: Vec<u8> = (0..n).map(|k| k as u8).collect(); let mut w = v.clone();
        scope(&mut v[..], |mut c| for &(s, e) in &[(0, n), (1, n), (0, n - 1), (13, 50)] { if let Ok(r) = c.vet_range(s..e) { case!("long rotate", n, s, e); c.rotate1_up(r); w[s..e].rotate_right(1); eq!(&c[..], &w[..], "rotate1_up"); c.rotate1_down(r); c.rotate1_down(r); w[s..e].rotate_left(2); eq!(&c[..], &w[..], "rotate1_down"); } });
    }
    for &n in &[40usize, 140, 270] {
        let mut v = els(&vec![0; n]); let mut w: Vec<usize> = (0..n).collect();
        scope(&mut v[..], |mut c| for s in vec![0, 1, 13] { for e in (s..=n).filter(|&e| n < 270 || e % 16 < 2 || e > 254) { if let Ok(r) = c.vet_range(s..e) {
            macro_rules! same { ($t:expr) => { ck!(c[..].iter().map(|x| x.id).eq(w.iter().cloned()), "{}: the elements are in the wrong order", $t); no_drops($t); } }
            case!("long rotations with drops counted", n, s, e);
            c.rotate1_up(r); w[s..e].rotate_right((s < e) as usize); same!("rotate1_up");
            c.rotate1_down(r); w[s..e].rotate_left((s < e) as usize); c.rotate1_down(r); w[s..e].rotate_left((s < e) as usize); same!("rotate1_down");
            if e % 16 < 2 { if let Ok(q) = crate::pointers::sub(&c, s, e).nonempty() { c.rotate1_prange(q); w[s..e].rotate_right(1); same!("rotate1_prange"); c.swap_ptr(q.first(), q.last()); w.swap(s, e - 1); same!("swap_ptr"); } }
        } } });
        drop_once(v, n, "long rotations");
    }
    let _: Option<(NonEmpty, Unknown)> = None;
    for &n in &[300usize, 65_537, 140_000] {
        let mut v: Vec<u32> = (0..n as u32).collect(); let mut w = v.clone();
        scope(&mut v[..], |mut c| for &(s, e) in &[(0, n), (1, n), (0, n - 1), (n - 280, n - 2), (n / 3, n), (7, 263), (7, 264)] { let r = match c.vet_range(s..e) { Ok(r) => r, _ => continue };
            case!("very long moves", n, s, e);
            macro_rules! same { ($t:expr) => { ck!(c[..] == w[..], "{} differs first at {:?}", $t, (0..n).find(|&k| c[..][k] != w[k])) } }
            c.rotate1_up(r); w[s..e].rotate_right(1); same!("rotate1_up");
            if let Ok(q) = r.nonempty() { c.swap(q.first(), q.last()); w.swap(s, e - 1); same!("swap"); c.swap(q.last(), q.lower_middle()); w.swap(e - 1, s + (e - s - 1) / 2); same!("swap"); }
            c.rotate1_down(r); w[s..e].rotate_left(1); same!("rotate1_down");
            let p = crate::pointers::sub(&c, s, e); if let Ok(q) = p.nonempty() { c.rotate1_prange(q); w[s..e].rotate_right(1); same!("rotate1_prange"); c.swap_ptr(q.first(), q.last()); w.swap(s, e - 1); same!("swap_ptr"); }
            let (a, b) = r.split_in_half(); let m = s + (e - s) / 2;
            match c.index_twice(a, b) { Ok((x, y)) => { eq!((x.len(), y.len(), x.as_ptr() as usize + 4 * x.len()), (m - s, e - m, y.as_ptr() as usize), "index_twice"); }, Err(_) => ck!(false, "index_twice refuses adjacent halves") }
            let (mut calls, base) = (0usize, c[..].as_ptr() as usize); let mut bad = None;
            c.zip_mut_raw(a, b, |p, q| { if p as usize != base + 4 * (s + calls) || q as usize != base + 4 * (m + calls) { bad = bad.or(Some(calls)) } calls += 1 });
            eq!((calls, bad), ((m - s).min(e - m), None), "zip_mut_raw: calls, first wrong pair");
        });
    }
}
