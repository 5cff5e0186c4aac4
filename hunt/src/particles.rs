//! C01 - C05, C07, C08, C18: indices and ranges.
use crate::rt::*;
use indexing::container_traits::*;
use indexing::indexing::IntoCheckedRange;
use indexing::proof::Provable;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use std::cmp::{max, min, Ordering};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn vet_all<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, n: usize, tag: &'static str) {
    case!(tag, n);
    eq!(c.len(), n, "len");
    eq!(ir(&c.range(), n), (0, n), "range");
    eq!(ir(&c.empty_range(), n), (0, 0), "empty_range");
    ck!(c.empty_range().is_empty(), "empty_range is empty");
    let mut xs = points(n); xs.extend(offsets(n)); xs.sort(); xs.dedup();
    for &i in &xs {
        case!("vet", n, i);
        match c.vet(i) {
            Ok(x) => { ck!(i < n, "vet accepted {} for length {}", i, n); eq!(ii(&x, n), i, "vet"); }
            Err(e) => { ck!(i >= n, "vet refused {} for length {}", i, n); let _ = format!("{}", e); }
        }
    }
    for &s in &xs { for &e in &xs {
        case!("vet_range", n, s, e);
        match c.vet_range(s..e) {
            Ok(r) => {
                ck!(s <= e && e <= n, "vet_range accepted {}..{} for length {}", s, e, n);
                eq!(ir(&r, n), (s, e), "vet_range");
            }
            Err(_) => ck!(!(s <= e && e <= n), "vet_range refused {}..{} for length {}", s, e, n),
        }
    } }
}
fn extent<'id, P: Mk>(r: Range<'id, P>, n: usize, s: usize, e: usize) {
    eq!(r.len(), e - s, "Range::len");
    eq!(r.is_empty(), s == e, "Range::is_empty");
    eq!((r.start(), r.end()), (s, e), "Range start/end");
    eq!(r.as_range(), s..e, "as_range");
    match r.nonempty() {
        Ok(q) => { ck!(s < e, "nonempty accepted an empty range"); eq!(ir(&q, n), (s, e), "nonempty"); }
        Err(_) => ck!(s == e, "nonempty refused {}..{}", s, e),
    }
    let mut xs = points(n); xs.extend(offsets(n)); xs.push(s); xs.push(e); xs.push(e.wrapping_sub(1)); xs.push(s.wrapping_sub(1));
    xs.sort(); xs.dedup();
    for i in xs {
        case!("contains", n, s, e, i, P::NE);
        match r.contains(i) {
            Some(x) => { ck!(s <= i && i < e, "contains accepted {} in {}..{}", i, s, e); eq!(ii(&x, n), i, "contains"); }
            None => ck!(!(s <= i && i < e), "contains refused {} in {}..{}", i, s, e),
        }
    }
}
fn checked<'id, R: IntoCheckedRange<'id>>(r: R, n: usize, s: usize, e: usize) {
    case!("IntoCheckedRange::into", n, s, e);
    match IntoCheckedRange::into(r) {
        Ok(q) => { ck!(s < e, "into accepted an empty range"); eq!(ir(&q, n), (s, e), "into"); }
        Err(_) => ck!(s == e, "into refused {}..{}", s, e),
    }
}
/// all ranges [s, e) of a container over the interesting positions
pub fn each_range<'id, A: Trustworthy, M, F: FnMut(Range<'id>, usize, usize)>(c: &Container<'id, A, M>, n: usize, mut f: F) {
    let p = points(n);
    for &s in &p { for &e in &p { if s <= e { if let Ok(r) = c.vet_range(s..e) { f(r, s, e) } } } }
}
pub fn c01() {
    for n in sizes() {
        scope(units(n), |c| {
            vet_all(&c, n, "&[()]");
            each_range(&c, n, |r, s, e| {
                extent(r, n, s, e);
                checked(r, n, s, e);
                if let Ok(q) = r.nonempty() { extent(q, n, s, e); checked(q, n, s, e); }
            });
            vet_all(&c.only_index(), n, "only_index");
        });
        if n > 1000 { continue }
        let mut v: Vec<u16> = (0..n as u16).collect();
        scope(&v[..], |c| { vet_all(&c, n, "&[u16]"); vet_all(&c.clone(), n, "clone"); vet_all(&c.only_index(), n, "only_index") });
        scope(&v, |c| vet_all(&c, n, "&Vec"));
        scope(&&v[..], |c| vet_all(&c, n, "&&[T]"));
        scope(&mut v[..], |c| vet_all(&c, n, "&mut [T]"));
        scope(&mut v, |c| { vet_all(&c, n, "&mut Vec"); vet_all(&c.only_index(), n, "&mut Vec only_index") });
        scope(&mut &mut v, |c| vet_all(&c, n, "&mut &mut Vec"));
        scope(v.clone(), |c| { vet_all(&c, n, "Vec"); let mut w = c.only_index(); vet_all(&w, n, "Vec only_index"); w.push(7); vet_all(&w, n + 1, "Vec pushed") });
        let mut w = Vec::with_capacity(n + 5); w.extend_from_slice(&v);
        scope(w, |c| vet_all(&c, n, "Vec with spare capacity"));
        scope(&mut v, |c| { let t = c.only_index(); vet_all(&t, n, "Vec") });
        let w2 = v.clone();
        scope(&v[..], |c| if let Ok(t) = c.make_twin(&w2[..]) { vet_all(&t, n, "twin") });
    }
}

pub fn cuts<'id, A: Trustworthy, M, P: Mk>(c: &Container<'id, A, M>, n: usize, r: Range<'id, P>, s: usize, e: usize) {
    let len = e - s;
    case!("cuts", n, s, e, P::NE);
    let (a, b) = r.split_in_half();
    eq!((ir(&a, n), ir(&b, n)), ((s, s + len / 2), (s + len / 2, e)), "split_in_half");
    for k in offsets(n) {
        case!("split_at", n, s, e, P::NE, k);
        let (a, b, ok) = r.split_at(k);
        let m = s + min(k, len);
        eq!((ir(&a, n), ir(&b, n), ok), ((s, m), (m, e), k <= len), "Range::split_at({})", k);
    }
    case!("ends", n, s, e, P::NE);
    eq!(ii(&r.first(), n), s, "first");
    eq!(ii(&r.upper_middle(), n), s + len / 2, "upper_middle");
    eq!(ii(&r.past_the_end(), n), e, "past_the_end");
    let (a, b) = r.frontiers();
    eq!((ir(&a, n), ir(&b, n)), ((s, s), (e, e)), "frontiers");
    eq!(ir(&r.no_proof(), n), (s, e), "Range::no_proof");
    eq!(ir(&Provable::no_proof(r), n), (s, e), "Provable::no_proof");
    let (a, b) = c.split_around(r);
    eq!((ir(&a, n), ir(&b, n)), ((0, s), (e, n)), "split_around");
    for i in vec![r.past_the_end(), r.no_proof().first(), Provable::no_proof(r.first()), r.frontiers().1.first()] {
        let k = ii(&i, n);
        case!("at edge index", n, s, e, k);
        let (a, b) = c.split_at(i);
        eq!((ir(&a, n), ir(&b, n)), ((0, k), (k, n)), "Container::split_at");
        eq!(ir(&c.before(i), n), (0, k), "before");
        eq!(ir(&c.range_of(..i), n), (0, k), "range_of(..i)");
        eq!(ir(&c.range_of(i..), n), (k, n), "range_of(i..)");
    }
    eq!(ir(&c.range_of::<P, _>(..), n), (0, n), "range_of(..)");
}
pub fn cuts_ne<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, n: usize, r: Range<'id, NonEmpty>, s: usize, e: usize) {
    let len = e - s;
    case!("cuts nonempty", n, s, e);
    eq!(ii(&r.lower_middle(), n), s + (len - 1) / 2, "lower_middle");
    eq!(ii(&r.last(), n), e - 1, "last");
    eq!(ir(&r.tail(), n), (s + 1, e), "tail");
    eq!(ir(&r.init(), n), (s, e - 1), "init");
    for i in vec![r.first(), r.last(), r.upper_middle(), r.lower_middle()] {
        let k = i.integer();
        case!("at index", n, s, e, k);
        eq!(ii(&i.after(), n), k + 1, "Index::after");
        eq!(ii(&Provable::no_proof(i), n), k, "Index::no_proof");
        let (a, b) = c.split_at(i);
        eq!((ir(&a, n), ir(&b, n)), ((0, k), (k, n)), "Container::split_at");
        let (a, b) = c.split_after(i);
        eq!((ir(&a, n), ir(&b, n)), ((0, k + 1), (k + 1, n)), "split_after");
        eq!(ir(&c.before(i), n), (0, k), "before");
        eq!(ir(&c.after(i), n), (k + 1, n), "after");
        eq!(ir(&c.range_of(..i), n), (0, k), "range_of(..i)");
        eq!(ir(&c.range_of(i..), n), (k, n), "range_of(i..)");
        eq!(ir(&c.range_of(i.after()..), n), (k + 1, n), "range_of(i.after()..)");
    }
}
pub fn c03() {
    for n in sizes() {
        scope(units(n), |c| {
            each_range(&c, n, |r, s, e| {
                cuts(&c, n, r, s, e);
                if let Ok(q) = r.nonempty() { cuts(&c, n, q, s, e); cuts_ne(&c, n, q, s, e); }
            });
        });
        if n > 1000 { continue }
        let v: Vec<u16> = (0..n as u16).collect();
        scope(v, |c| { let c = c.only_index(); each_range(&c, n, |r, s, e| {
            cuts(&c, n, r, s, e);
            if let Ok(q) = r.nonempty() { cuts(&c, n, q, s, e); cuts_ne(&c, n, q, s, e); }
        }) });
    }
}

fn joins<'id, P: Mk, Q: Mk>(n: usize, r: Range<'id, P>, q: Range<'id, Q>)
    where (P, Q): indexing::proof::ProofAdd, <(P, Q) as indexing::proof::ProofAdd>::Sum: Mk,
{
    let (s, e, a, b) = (r.start(), r.end(), q.start(), q.end());
    case!("join", n, s, e, P::NE, a, b, Q::NE);
    match r.join(q) {
        Ok(j) => {
            ck!(e == a, "join of {}..{} and {}..{} succeeded", s, e, a, b);
            eq!(ir(&j, n), (s, b), "join");
            eq!(ne(&j), P::NE || Q::NE, "marker of join");
        }
        Err(_) => ck!(e != a, "join of {}..{} and {}..{} refused", s, e, a, b),
    }
    let j = r.join_cover(q);
    eq!(ir(&j, n), (s, max(e, b)), "join_cover");
    eq!(ne(&j), P::NE, "marker of join_cover");
    let j = r.join_cover_both(q);
    eq!(ir(&j, n), (min(s, a), max(e, b)), "join_cover_both");
    eq!(ne(&j), P::NE || Q::NE, "marker of join_cover_both");
}
pub fn c04() {
    for n in sizes() {
        scope(units(n), |c| {
            each_range(&c, n, |r, _, _| each_range(&c, n, |q, _, _| {
                joins(n, r, q);
                if let Ok(r1) = r.nonempty() { joins(n, r1, q); if let Ok(q1) = q.nonempty() { joins(n, r1, q1) } }
                if let Ok(q1) = q.nonempty() { joins(n, r, q1) }
            }));
        });
    }
}

fn steps<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, n: usize) { steps_(c, n, true) }
pub fn steps_<'id, A: Trustworthy, M>(c: &Container<'id, A, M>, n: usize, pairs: bool) {
    for k in points(n) {
        let i = match c.vet(k) { Ok(i) => i, Err(_) => continue };
        let mut j = i;
        case!("forward", n, k);
        let ok = c.forward(&mut j);
        eq!((ok, ii(&j, n)), (k + 1 < n, if k + 1 < n { k + 1 } else { k }), "forward");
        let mut j = i;
        case!("backward", n, k);
        let ok = c.backward(&mut j);
        eq!((ok, ii(&j, n)), (k > 0, k.saturating_sub(1)), "backward");
        for o in offsets(n) {
            let mut j = i;
            case!("Container::forward_by", n, k, o);
            let ok = c.forward_by(&mut j, o);
            let want = match k.checked_add(o) { Some(t) if t < n => (true, t), _ => (false, k) };
            eq!((ok, ii(&j, n)), want, "Container::forward_by({})", o);
        }
    }
    let offs = offsets(n);
    each_range(c, n, |r, s, e| {
        for &o in &offs {
            case!("Container::forward_range_by", n, s, e, o);
            let q = c.forward_range_by(r, o);
            let want = (min(n, s.saturating_add(o)), min(n, e.saturating_add(o)));
            eq!(ir(&q, n), want, "Container::forward_range_by({})", o);
            if let Ok(r1) = r.nonempty() { eq!(ir(&c.forward_range_by(r1, o), n), want, "Container::forward_range_by({}), nonempty", o); }
            for k in points(n) {
                let i = match c.vet(k) { Ok(i) => i, Err(_) => continue };
                case!("Range::forward_by", n, s, e, k, o);
                let mut j = i;
                let ok = r.forward_by(&mut j, o);
                let want = match k.checked_add(o) { Some(t) if t < e => (true, t), _ => (false, k) };
                eq!((ok, ii(&j, n)), want, "Range::forward_by({})", o);
                if let Ok(r1) = r.nonempty() { let mut j = i; let ok = r1.forward_by(&mut j, o); eq!((ok, ii(&j, n)), want, "Range::forward_by({}), nonempty", o); }
            }
        }
        if let Ok(q) = r.nonempty() {
            let up = (s + 1 < e, if s + 1 < e { (s + 1, e) } else { (s, e) });
            case!("advance", n, s, e);
            let mut t = q; let ok = t.advance();
            eq!((ok, ir(&t, n)), up, "advance");
            case!("advance_", n, s, e);
            match q.advance_() { Ok(t) => { ck!(up.0, "advance_ gave an empty range"); eq!(ir(&t, n), up.1, "advance_"); } Err(_) => ck!(!up.0, "advance_ refused") }
            case!("advance_back", n, s, e);
            let mut t = q; let ok = t.advance_back();
            eq!((ok, ir(&t, n)), (s + 1 < e, if s + 1 < e { (s, e - 1) } else { (s, e) }), "advance_back");
            for &o in &offs {
                case!("advance_by", n, s, e, o);
                let mut t = q; let ok = t.advance_by(o);
                let want = match s.checked_add(o) { Some(x) if x < e => (true, (x, e)), _ => (false, (s, e)) };
                eq!((ok, ir(&t, n)), want, "advance_by({})", o);
            }
        }
    });
    if !pairs { return }
    let offs: Vec<usize> = if n > 12 { vec![0, 1, 2, n / 2, n - 1, n, n + 1, usize::MAX, usize::MAX - n] } else { offs };
    each_range(c, n, |r, s, e| each_range(c, n, |q, a, b| for &o in &offs {
        case!("Range::forward_range_by", n, s, e, a, b, o);
        let want = (min(e, a.saturating_add(o)), min(e, b.saturating_add(o)));
        eq!(ir(&r.forward_range_by(q, o), n), want, "Range::forward_range_by({})", o);
        if let (Ok(r1), Ok(q1)) = (r.nonempty(), q.nonempty()) { eq!(ir(&r1.forward_range_by(q1, o), n), want, "Range::forward_range_by({}), nonempty", o); }
    }));
}
pub fn c05() {
    for n in sizes() {
        let often = n <= 6 || n >= BIG - 1 || deep();
        scope(units(n), |c| steps_(&c, n, often));
        if n > 6 && n < 1000 && n != 31 && n != 256 { continue }
        if n > 1000 { continue }
        scope((0..n as u16).collect::<Vec<u16>>(), |c| steps_(&c.only_index(), n, n < 20));
    }
}

fn iterate<'id, P: Mk>(r: Range<'id, P>, n: usize, s: usize, e: usize, script: u32, steps: usize) {
    case!("iterate", n, s, e, script, steps);
    let mut it = r.into_iter();
    let (mut lo, mut hi) = (s, e);
    eq!(ir(&it.into_range(), n), (lo, hi), "into_range at the start");
    for k in 0..steps {
        let back = script >> (k % 32) & 1 == 1;
        let copy = it;
        let (l0, h0) = (lo, hi);
        let got = if back { it.next_back() } else { it.next() };
        let want = if lo < hi { Some(if back { hi -= 1; hi } else { lo += 1; lo - 1 }) } else { None };
        eq!(got.map(|i| ii(&i, n)), want, "step {} from the {}", k, if back { "back" } else { "front" });
        let rest = ir(&it.into_range(), n);
        if lo < hi { eq!(rest, (lo, hi), "remaining range after step {}", k); }
        else { ck!(rest.0 == rest.1 && rest.0 >= s && rest.0 <= e, "remaining range {:?} after the end", rest); }
        let (a, b) = it.size_hint();
        ck!(a <= hi - lo && b.map_or(true, |b| b >= hi - lo), "size_hint {:?} with {} left", (a, b), hi - lo);
        if l0 < h0 { eq!(ir(&copy.into_range(), n), (l0, h0), "a copy made before step {} is unaffected", k); }
    }
}
fn iter_adaptors<'id, P: Mk>(r: Range<'id, P>, n: usize, s: usize, e: usize) {
    case!("adaptors", n, s, e);
    let want: Vec<usize> = (s..e).collect();
    crate::adapt::back(&|| r.into_iter(), &|i| ii(&i, n), &want, "RangeIter");
    crate::adapt::ordered(&|| r.into_iter(), &|i| ii(i, n), &want, "RangeIter");
    for &(a, z) in &[(1usize, 0usize), (0, 1), (2, 1), (1, 2)] { if a + z <= e - s && (a, z) != (0, 0) {
        case!("adaptors of a used iterator", n, s, e, a, z);
        let mk = || { let mut it = r.into_iter(); for _ in 0..a { it.next(); } for _ in 0..z { it.next_back(); } it };
        crate::adapt::back(&mk, &|i| ii(&i, n), &want[a..e - s - z], "RangeIter after some steps"); crate::adapt::ordered(&mk, &|i| ii(i, n), &want[a..e - s - z], "RangeIter after some steps");
    } }
}
pub fn c07() {
    for n in sizes() {
        scope(units(n), |c| each_range(&c, n, |r, s, e| {
            let len = e - s;
            let steps = min(len + 3, if thorough() { 12 } else { 9 });
            for script in 0..1u32 << steps {
                if n > 20 && script % 37 != 0 { continue }
                iterate(r, n, s, e, script, steps);
            }
            if let Ok(q) = r.nonempty() { iterate(q, n, s, e, 0x5a5a5a5a, steps); }
            if len < 7 || (len < 300 && (n < 300 || s == 3)) { iter_adaptors(r, n, s, e); if let Ok(q) = r.nonempty() { iter_adaptors(q, n, s, e); } }
        }));
    }
    // long ranges
    for &n in &[100usize, 300] { scope(units(n), |c| for &(s, e) in &[(0, n), (1, n - 1), (7, n)] {
        if let Ok(r) = c.vet_range(s..e) { iterate(r, n, s, e, 0, e - s + 2); iterate(r, n, s, e, !0, e - s + 2); iterate(r, n, s, e, 0x9c3a11f5, e - s + 2); }
    }) }
}
fn divide<'id, P: Mk>(r: Range<'id, P>, n: usize, s: usize, e: usize, k: usize) {
    case!("subdivide", n, s, e, k, P::NE);
    let len = e - s;
    let mut it = r.subdivide(k);
    let (mut at, mut cnt, mut mn, mut mx) = (s, 0usize, usize::MAX, 0usize);
    let cap = min(k, 400);
    while let Some(p) = it.next() {
        let (a, b) = ir(&p, n);
        ck!(k <= len, "a part {}..{} although {} parts were asked of length {}", a, b, k, len);
        eq!(a, at, "start of part {}", cnt);
        ck!(a < b && b <= e, "part {} is {}..{}", cnt, a, b);
        ck!(ne(&p), "a part is marked as non-empty");
        at = b; cnt += 1; mn = min(mn, b.wrapping_sub(a)); mx = max(mx, b.wrapping_sub(a));
        if cnt > cap && bounds() { return }
        ck!(cnt <= k, "more than {} parts", k);
        ck!(mx - mn <= 1, "part lengths {} and {}", mn, mx);
        if cnt > cap { return }
    }
    if bounds() { return }
    if k <= len { eq!(cnt, k, "number of parts"); eq!(at, e, "end of the last part"); }
    for _ in 0..3 { ck!(it.next().is_none(), "a part after the end"); }
    eq!(r.subdivide(k).count(), cnt, "count");
    if cnt < 7 || (cnt < 70 && (k % 8 == 0 || k > len)) {
        let mut want = vec![]; let mut it = r.subdivide(k); while let Some(p) = it.next() { want.push((p.start(), p.end())) }
        crate::adapt::front(&|| r.subdivide(k), &|p| ir(&p, n), &want, "Subdivide");
        for a in 1..3 { if a <= cnt { crate::adapt::front(&|| { let mut it = r.subdivide(k); for _ in 0..a { it.next(); } it }, &|p| ir(&p, n), &want[a..], "Subdivide after some steps") } }
    }
}
pub fn c08() {
    let t = if thorough() { 70 } else { 34 };
    for n in 0..t {
        scope(units(n), |c| for s in 0..=min(n, 3) { let e = n;
            if let Ok(r) = c.vet_range(s..e) { for k in 1..e - s + 4 { divide(r, n, s, e, k); if let Ok(q) = r.nonempty() { divide(q, n, s, e, k) } } }
            if s > 0 { if let Ok(r) = c.vet_range(0..n - s) { for k in 1..n - s + 2 { divide(r, n, 0, n - s, k) } } }
        });
    }
    for &n in &[BIG, BIG - 1, 1000, 997] {
        scope(units(n), |c| each_range(&c, n, |r, s, e| for &k in &[1usize, 2, 3, 7, 64, 97, 255, n, n - 1, n / 2, e - s, (e - s).wrapping_add(1), usize::MAX, usize::MAX - 1, BIG + 1] { if k > 0 { divide(r, n, s, e, k) } }));
    }
}

fn h<T: Hash>(x: &T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
macro_rules! ord { ($a:expr, $b:expr, $o:expr, $w:expr) => {{
    let (a, b, o) = ($a, $b, $o);
    eq!(a == b, o == Ordering::Equal, "{}: ==", $w); eq!(a != b, o != Ordering::Equal, "{}: !=", $w);
    eq!(a < b, o == Ordering::Less, "{}: <", $w); eq!(a <= b, o != Ordering::Greater, "{}: <=", $w);
    eq!(a > b, o == Ordering::Greater, "{}: >", $w); eq!(a >= b, o != Ordering::Less, "{}: >=", $w);
    eq!(a.partial_cmp(&b), Some(o), "{}: partial_cmp", $w);
    if o == Ordering::Equal { eq!(h(&a), h(&b), "{}: hash of equal values", $w); }
}} }
macro_rules! total { ($a:expr, $b:expr, $o:expr, $k:expr, $w:expr) => {{
    let (a, b, o) = ($a, $b, $o);
    ord!(a, b, o, $w);
    eq!(a.cmp(&b), o, "{}: cmp", $w);
    eq!($k(max(a, b)), max($k(a), $k(b)), "{}: max", $w); eq!($k(min(a, b)), min($k(a), $k(b)), "{}: min", $w);
    eq!($k(a.clamp(min(a, b), max(a, b))), $k(a), "{}: clamp", $w);
}} }
pub fn c18() {
    for n in sizes() {
        scope(units(n), |c| {
            let ki = |i: Index<'_>| i.integer();
            let ku = |i: Index<'_, Unknown>| i.integer();
            for a in points(n) { for b in points(n) {
                case!("compare indices", n, a, b);
                let o = a.cmp(&b);
                let (ua, ub) = match (c.vet_range(a..n), c.vet_range(b..n)) { (Ok(x), Ok(y)) => (x.first(), y.first()), _ => continue };
                total!(ua, ub, o, ku, "Index<Unknown>");
                if let (Ok(x), Ok(y)) = (c.vet(a), c.vet(b)) {
                    total!(x, y, o, ki, "Index");
                    ord!(x, ub, o, "Index vs Index<Unknown>"); ord!(ua, y, o, "Index<Unknown> vs Index");
                }
            } }
            let kr = |r: Range<'_>| (r.start(), r.end());
            let kn = |r: Range<'_, NonEmpty>| (r.start(), r.end());
            each_range(&c, n, |r, s, e| each_range(&c, n, |q, a, b| {
                case!("compare ranges", n, s, e, a, b);
                let o = (s, e).cmp(&(a, b));
                total!(r, q, o, kr, "Range");
                if let Ok(y) = q.nonempty() { ord!(r, y, o, "Range vs Range<NonEmpty>"); ord!(y, r, o.reverse(), "Range<NonEmpty> vs Range");
                    if let Ok(x) = r.nonempty() { total!(x, y, o, kn, "Range<NonEmpty>"); } }
            }));
        });
    }
}
