//! The provided methods of Iterator and DoubleEndedIterator, which an implementation may override.
use crate::rt::*;
use std::fmt::Debug;
/// `mk` makes the iterator; `want` is what it must yield
pub fn front<I: Iterator, K: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K, want: &[K], what: &str) {
    let n = want.len();
    let ks = |v: Vec<I::Item>| v.into_iter().map(|x| key(x)).collect::<Vec<K>>();
    let after = |mut it: I, k: usize, w: &str| { eq!(it.next().map(|x| key(x)), want.get(k).cloned(), "{}: next after {}", what, w); };
    eq!(ks(mk().collect()), want, "{}: collect", what);
    eq!(mk().count(), n, "{}: count", what);
    eq!(mk().last().map(|x| key(x)), want.last().cloned(), "{}: last", what);
    let mut v = vec![]; mk().for_each(|x| v.push(x)); eq!(ks(v), want, "{}: for_each", what);
    eq!(ks(mk().fold(vec![], |mut a, x| { a.push(x); a })), want, "{}: fold", what);
    eq!(mk().map(|x| key(x)).collect::<Vec<_>>(), want, "{}: map", what);
    let (lo, hi) = mk().size_hint(); ck!(lo <= n && hi.map_or(true, |h| h >= n), "{}: size_hint {:?} with {} items", what, (lo, hi), n);
    eq!(mk().reduce(|_, x| x).map(|x| key(x)), want.last().cloned(), "{}: reduce", what);
    let (a, b): (Vec<I::Item>, Vec<I::Item>) = { let mut f = false; mk().partition(|_| { f = !f; f }) };
    eq!(ks(a), want.iter().step_by(2).cloned().collect::<Vec<_>>(), "{}: partition", what); eq!(ks(b), want.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>(), "{}: partition", what);
    eq!(ks(mk().enumerate().map(|(_, x)| x).collect()), want, "{}: enumerate", what);
    eq!(ks(mk().zip(0..n + 3).map(|(x, _)| x).collect()), want, "{}: zip", what);
    eq!(ks(mk().fuse().collect()), want, "{}: fuse", what);
    eq!(ks(mk().chain(mk()).collect()), want.iter().chain(want).cloned().collect::<Vec<_>>(), "{}: chain", what);
    let mut it = mk(); for _ in 0..n { it.next(); } for _ in 0..3 { ck!(it.next().is_none(), "{}: an item after the end", what) }
    let js: Vec<usize> = if n < 12 { (0..n + 2).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, 2 * n] };
    for j in js.into_iter().chain([usize::MAX, usize::MAX - 1, isize::MAX as usize].iter().cloned()) {
        if j > 2 * n + 2 && n > 300 { continue }
        let mut it = mk(); eq!(it.nth(j).map(|x| key(x)), want.get(j).cloned(), "{}: nth({})", what, j); if j <= n { after(it, j + 1, "nth") }
        eq!(ks(mk().skip(j).collect()), want.iter().skip(j).cloned().collect::<Vec<_>>(), "{}: skip({})", what, j);
        eq!(ks(mk().take(j).collect()), want.iter().take(j).cloned().collect::<Vec<_>>(), "{}: take({})", what, j);
        eq!(mk().skip(j).count(), n.saturating_sub(j), "{}: skip({}).count", what, j);
        if j > 0 { eq!(ks(mk().step_by(j).collect()), want.iter().step_by(j).cloned().collect::<Vec<_>>(), "{}: step_by({})", what, j) }
        if j > n + 2 { continue }
        // searching methods stop after item j
        macro_rules! stop { ($w:expr, $e:expr) => {{ let mut c = 0usize; let mut it = mk(); let mut hit = |_: usize| { c += 1; c == j + 1 }; let _ = $e(&mut it, &mut hit); let n2 = c; eq!(n2, n.min(j + 1), "{}: items asked by {}", what, $w); after(it, n.min(j + 1), $w) }} }
        stop!("any", |it: &mut I, f: &mut dyn FnMut(usize) -> bool| it.any(|_| f(0)));
        stop!("all", |it: &mut I, f: &mut dyn FnMut(usize) -> bool| it.all(|_| !f(0)));
        stop!("find", |it: &mut I, f: &mut dyn FnMut(usize) -> bool| it.find(|_| f(0)).is_some());
        stop!("find_map", |it: &mut I, f: &mut dyn FnMut(usize) -> bool| it.find_map(|x| if f(0) { Some(key(x)) } else { None }).is_some());
        stop!("try_fold", |it: &mut I, f: &mut dyn FnMut(usize) -> bool| it.try_fold((), |_, _| if f(0) { Err(()) } else { Ok(()) }));
        stop!("try_for_each", |it: &mut I, f: &mut dyn FnMut(usize) -> bool| it.try_for_each(|_| if f(0) { Err(()) } else { Ok(()) }));
        let mut c = 0; let mut it = mk(); eq!(it.position(|_| { c += 1; c == j + 1 }), if j < n { Some(j) } else { None }, "{}: position", what); after(it, n.min(j + 1), "position");
        let mut c = 0; eq!(mk().find(|_| { c += 1; c == j + 1 }).map(|x| key(x)), want.get(j).cloned(), "{}: find", what);
        let mut it = mk(); let v: Vec<I::Item> = it.by_ref().take(j).collect(); eq!(ks(v), &want[..j.min(n)], "{}: by_ref", what); after(it, j.min(n), "by_ref");
        let mut c = 0; eq!(ks(mk().take_while(|_| { c += 1; c <= j }).collect()), &want[..j.min(n)], "{}: take_while", what);
        let mut c = 0; eq!(ks(mk().skip_while(|_| { c += 1; c <= j }).collect()), &want[j.min(n)..], "{}: skip_while", what);
        eq!(mk().min_by_key(|x| { let _ = x; 0 }).map(|x| key(x)), want.first().cloned(), "{}: min_by_key", what); eq!(mk().max_by_key(|_| 0).map(|x| key(x)), want.last().cloned(), "{}: max_by_key", what);
    }
}
pub fn back<I: DoubleEndedIterator, K: PartialEq + Debug + Clone>(mk: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K, want: &[K], what: &str) {
    let n = want.len();
    let rev: Vec<K> = want.iter().rev().cloned().collect();
    front(&|| mk().rev(), key, &rev, &format!("{}, reversed", what));
    let ks = |v: Vec<I::Item>| v.into_iter().map(|x| key(x)).collect::<Vec<K>>();
    eq!(ks(mk().rfold(vec![], |mut a, x| { a.push(x); a })), rev, "{}: rfold", what);
    let js: Vec<usize> = if n < 12 { (0..n + 2).collect() } else { vec![0, 1, 2, n / 2, n - 1, n, n + 1] };
    for j in js.into_iter().chain([usize::MAX, usize::MAX - 1, isize::MAX as usize].iter().cloned()) {
        if j > 2 * n + 2 && n > 300 { continue }
        let mut it = mk(); eq!(it.nth_back(j).map(|x| key(x)), rev.get(j).cloned(), "{}: nth_back({})", what, j);
        let rest = n.saturating_sub(j).saturating_sub(1); eq!(ks(it.collect()), &want[..rest], "{}: what is left after nth_back({})", what, j);
        let mut it = mk(); it.nth(j); eq!(it.next_back().map(|x| key(x)), if rest > 0 { want.last().cloned() } else { None }, "{}: next_back after nth({})", what, j);
        if j > n + 2 { continue }
        let mut c = 0; let mut it = mk(); eq!(it.rfind(|_| { c += 1; c == j + 1 }).map(|x| key(x)), rev.get(j).cloned(), "{}: rfind", what); eq!(ks(it.collect()), &want[..rest], "{}: what is left after rfind", what);
        let mut c = 0; let mut it = mk(); let _ = it.try_rfold((), |_, _| { c += 1; if c == j + 1 { Err(()) } else { Ok(()) } }); eq!(ks(it.collect()), &want[..rest], "{}: what is left after try_rfold", what);
        for k in 0..=j.min(4) { let mut it = mk(); for _ in 0..k { it.next_back(); } eq!(it.nth(j).map(|x| key(x)), if j < n.saturating_sub(k) { Some(want[j].clone()) } else { None }, "{}: nth({}) after {} steps from the back", what, j, k);
            let (a, b) = (n.min(j + 1), n.saturating_sub(k)); eq!(ks(it.collect()), if j < b && a < b { &want[a..b] } else { &want[..0] }, "{}: what is left", what);
            let mut it = mk(); for _ in 0..k { it.next(); } let m = n.saturating_sub(k); eq!(it.nth_back(j).map(|x| key(x)), if j < m { Some(want[n - 1 - j].clone()) } else { None }, "{}: nth_back({}) after {} steps", what, j, k); }
        let mut it = mk(); for _ in 0..j { it.next(); } let m = n.saturating_sub(j);
        eq!(it.last().map(|x| key(x)), if m > 0 { want.last().cloned() } else { None }, "{}: last after {} steps", what, j);
        let mut it = mk(); for _ in 0..j { it.next_back(); } eq!(it.last().map(|x| key(x)), if m > 0 { Some(want[m - 1].clone()) } else { None }, "{}: last after {} steps from the back", what, j);
        let mut it = mk(); for _ in 0..j { it.next_back(); } eq!(it.count(), m, "{}: count after {} steps from the back", what, j);
        let mut it = mk(); for _ in 0..j { it.next_back(); } let (lo, hi) = it.size_hint(); ck!(lo <= m && hi.map_or(true, |h| h >= m), "{}: size_hint {:?} with {} items", what, (lo, hi), m);
        let mut it = mk(); for _ in 0..j { it.next_back(); } eq!(ks(it.fold(vec![], |mut a, x| { a.push(x); a })), &want[..m], "{}: fold after {} steps from the back", what, j);
    }
}
pub fn exact<I: ExactSizeIterator + DoubleEndedIterator>(mk: &dyn Fn() -> I, n: usize, what: &str) {
    for a in 0..n.min(6) + 2 { let mut it = mk(); for _ in 0..a { it.next(); } eq!(it.len(), n.saturating_sub(a), "{}: len", what); it.next_back(); eq!(it.len(), n.saturating_sub(a + 1), "{}: len", what);
        let mut c = 0; eq!(mk().rposition(|_| { c += 1; c == a + 1 }), if a < n { Some(n - 1 - a) } else { None }, "{}: rposition", what); }
}
/// methods that need an order on the items
pub fn ordered<I: Iterator>(mk: &dyn Fn() -> I, key: &dyn Fn(&I::Item) -> usize, want: &[usize], what: &str) where I::Item: Ord {
    eq!(mk().max().map(|x| key(&x)), want.iter().max().cloned(), "{}: max", what); eq!(mk().min().map(|x| key(&x)), want.iter().min().cloned(), "{}: min", what);
    eq!(mk().max_by(|a, b| a.cmp(b)).map(|x| key(&x)), want.iter().max().cloned(), "{}: max_by", what); eq!(mk().min_by(|a, b| a.cmp(b)).map(|x| key(&x)), want.iter().min().cloned(), "{}: min_by", what);
    eq!(mk().min_by_key(|x| std::cmp::Reverse(key(x))).map(|x| key(&x)), want.iter().max().cloned(), "{}: min_by_key", what);
    ck!(mk().eq(mk()) && !mk().ne(mk()) && mk().le(mk()) && mk().ge(mk()) && !mk().lt(mk()) && !mk().gt(mk()) && mk().cmp(mk()) == std::cmp::Ordering::Equal && mk().partial_cmp(mk()) == Some(std::cmp::Ordering::Equal), "{}: comparison with itself", what);
    ck!(mk().is_sorted() == want.windows(2).all(|w| w[0] <= w[1]), "{}: is_sorted", what);
    if !want.is_empty() { ck!(mk().skip(1).cmp(mk()) == want[1..].cmp(want) && mk().cmp(mk().skip(1)) == want.cmp(&want[1..]) && mk().eq(mk().skip(1)) == false, "{}: comparison with its tail", what) }
}
