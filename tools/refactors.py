#!/usr/bin/env python3
"""Behaviour-preserving edits: what do the proofs say?  refactors.py [ids]
Prints, per edit, the functions whose contract was lost, undecided, or failed (= alarm)."""
import sys, os, shutil, subprocess, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(HERE))
R = [
("len_reassoc", "indexing.rs", "let mid = (self.end - self.start) / 2 + self.start;", "let half = self.len() / 2;\n        let mid = self.start + half;"),
("split_at_min", "indexing.rs", """        let mid = if index > self.len() {
             self.end
        } else { self.start + index };
        unsafe {
            (Range::from(self.start, mid), Range::from(mid, self.end),
             index <= self.len())
        }""", """        let fits = index <= self.len();
        let mid = self.start + cmp::min(index, self.len());
        let (left, right) = unsafe {
            (Range::from(self.start, mid), Range::from(mid, self.end))
        };
        (left, right, fits)"""),
("contains_range", "indexing.rs", """        unsafe {
            if abs_index >= self.start && abs_index < self.end {
                Some(Index::new(abs_index))
            } else { None }
        }""", """        if abs_index < self.start || abs_index >= self.end {
            return None;
        }
        Some(unsafe { Index::new(abs_index) })"""),
("nonempty_early", "indexing.rs", """        unsafe {
            if !self.is_empty() {
                Ok(Range::assume_nonempty_range(*self))
            } else {
                Err(index_error())
            }
        }""", """        if self.is_empty() {
            return Err(index_error());
        }
        Ok(unsafe { Range::assume_nonempty_range(*self) })"""),
("forward_by_helper", "indexing.rs", """    /// Increment `index`, if doing so would still be before the end of the range
    ///
    /// Return `true` if the index was incremented.
    #[inline]
    pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
        let i = index.index.saturating_add(offset);
        if i < self.end {
            index.index = i;
            true
        } else { false }
    }""", """    #[inline]
    fn step_to(&self, index: &mut Index<'id>, i: usize) -> bool {
        if i < self.end {
            index.index = i;
            return true;
        }
        false
    }

    #[inline]
    pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
        let target = index.index.saturating_add(offset);
        self.step_to(index, target)
    }"""),
("join_flip", "indexing.rs", """        if self.end == other.start {
            unsafe {
                Ok(Range::from_any(self.start, other.end))
            }
        } else {
            Err(index_error())
        }""", """        if self.end != other.start {
            return Err(index_error());
        }
        let (start, end) = (self.start, other.end);
        Ok(unsafe { Range::from_any(start, end) })"""),
("join_cover_if", "indexing.rs", """        let end = cmp::max(self.end, other.end);
        unsafe {
            Range::from_any(self.start, end)""", """        let end = if other.end > self.end { other.end } else { self.end };
        unsafe {
            Range::from_any(self.start, end)"""),
("frontiers_inline", "indexing.rs", """        let s = self.start;
        let e = self.end;
        unsafe {
            (Range::from(s, s), Range::from(e, e))
        }""", """        let front = unsafe { Range::from(self.start, self.start) };
        let back = unsafe { Range::from(self.end, self.end) };
        (front, back)"""),
("vet_flip", "container.rs", """        if index < self.len() {
            unsafe {
                Ok(Index::new(index))
            }
        } else {
            Err(index_error())
        }""", """        match index < self.len() {
            true => Ok(unsafe { Index::new(index) }),
            false => Err(index_error()),
        }"""),
("vet_range_destruct", "container.rs", """        if r.start <= r.end && r.end <= self.len() {
            unsafe {
                Ok(Range::from(r.start, r.end))
            }
        } else {
            Err(index_error())
        }""", """        let (s, e) = (r.start, r.end);
        if s > e { return Err(index_error()); }
        if e > self.len() { return Err(index_error()); }
        unsafe { Ok(Range::from(s, e)) }"""),
("range_of_match", "container.rs", """            let start = r.start().map(|i| i.index).unwrap_or(0);
            let end = r.end().map(|i| i.index).unwrap_or(self.len());""", """            let start = match r.start() { Some(i) => i.index, None => 0 };
            let end = match r.end() { Some(i) => i.index, None => self.len() };"""),
("forward_ret", "container.rs", """        let i = index.index + 1;
        if i < self.len() {
            index.index = i;
            true
        } else { false }""", """        let can = index.index + 1 < self.len();
        if can {
            index.index += 1;
        }
        can"""),
("cforward_range_by", "container.rs", """        let start = r.start.saturating_add(offset);
        let end = r.end.saturating_add(offset);
        let len = self.len();
        unsafe {
            Range::from(cmp::min(len, start), cmp::min(len, end))
        }""", """        let len = self.len();
        let clamp = |x: usize| cmp::min(x.saturating_add(offset), len);
        unsafe {
            Range::from(clamp(r.start), clamp(r.end))
        }"""),
("scan_from_while", "container.rs", """        let mut end = index;
        for elt in &self[self.after(index)] {
            if !f(elt) {
                break;
            }
            end.index += 1;
        }
        end.index += 1;
        unsafe {
            Range::from_ne(index.index, end.index)
        }""", """        let mut end = index.index + 1;
        for elt in &self[self.after(index)] {
            if f(elt) {
                end += 1;
            } else {
                break;
            }
        }
        unsafe {
            Range::from_ne(index.index, end)
        }"""),
("scan_range_takewhile", "container.rs", """        let mut end = range.start;
        for elt in &self[range] {
            if !f(elt) {
                break;
            }
            end += 1;
        }""", """        let end = range.start + self[range].iter().take_while(|elt| f(*elt)).count();"""),
("swap_early", "container.rs", """        unsafe {
            let self_mut = self as *mut Self;
            let pi: *mut _ = &mut (*self_mut)[i];
            let pj: *mut _ = &mut (*self_mut)[j];
            ptr::swap(pi, pj);
        }""", """        if i == j { return; }
        unsafe {
            let pi: *mut _ = &mut self[i];
            let pj: *mut _ = &mut self[j];
            ptr::swap(pi, pj);
        }"""),
("rotate_len", "container.rs", """        if let Ok(r) = r.into() {
            if r.first() != r.last() {
                unsafe {
                    let last_ptr = &self[r.last()] as *const Array::Item;
                    let first_ptr = &mut self[r.first()] as *mut Array::Item;
                    let tmp = ptr::read(last_ptr);
                    ptr::copy(first_ptr,
                              first_ptr.offset(1),
                              r.len() - 1);
                    ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
                    mem::forget(tmp);
                }
            }
        }""", """        let r = match r.into() {
            Ok(r) => r,
            Err(_) => return,
        };
        let n = r.len();
        if n > 1 {
            unsafe {
                let first_ptr = &mut self[r.first()] as *mut Array::Item;
                let tmp = ptr::read(first_ptr.offset(n as isize - 1));
                ptr::copy(first_ptr, first_ptr.offset(1), n - 1);
                ptr::write(first_ptr, tmp);
            }
        }"""),
("twin_flip", "container.rs", """        if self.len() != arr.base_len() {
            Err(index_error())
        } else {
            Ok(Container { id: self.id, arr: arr, mode: PhantomData })
        }""", """        let n = arr.base_len();
        if n == self.len() {
            Ok(Container { id: self.id, arr, mode: PhantomData })
        } else {
            Err(index_error())
        }"""),
("qs_helper", "algorithms.rs", """    let (l, m, r) = (0, v.len() / 2, v.len() - 1);
    let mut pivot = if v[l] <= v[m] && v[m] <= v[r] {
        m
    } else if v[m] <= v[l] && v[l] <= v[r] {
        l
    } else {
        r
    };

    // partition
    v.swap(0, pivot);
    pivot = 0;
    let mut i = 0;
    let mut j = v.len() - 1;""", """    let last = v.len() - 1;
    let (l, m, r) = (0, v.len() / 2, last);
    let chosen = if v[l] <= v[m] && v[m] <= v[r] {
        m
    } else if v[m] <= v[l] && v[l] <= v[r] {
        l
    } else {
        r
    };

    // partition
    v.swap(chosen, 0);
    let pivot = 0;
    let mut j = last;
    let mut i = 0;"""),
("block_swap_helper", "algorithms.rs", """    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""", """    let mut i = 0;
    while i < count {
        swap(&mut a[i], &mut b[i]);
        i += 1;
    }"""),
("ins_idx_extract", "algorithms.rs", """        for i in v.range() {
            let jtail = v.scan_from_rev(i, |j_elt| less_than(&v[i], j_elt));
            v.rotate1_up(jtail);
        }
    });
}

/// Sort two""", """        for i in v.range() {
            let run = {
                let cur = &v[i];
                v.scan_from_rev(i, |prev| less_than(cur, prev))
            };
            v.rotate1_up(run);
        }
    });
}

/// Sort two"""),
("ins_rust_names", "algorithms.rs", """            if i != j {
                let tmp = ptr::read(read_ptr);
                ptr::copy(&*buf_v.offset(j),
                          buf_v.offset(j + 1),
                          (i - j) as usize);
                ptr::copy_nonoverlapping(&tmp, buf_v.offset(j), 1);
                mem::forget(tmp);
            }""", """            if j < i {
                let dst = buf_v.offset(j);
                let tmp = ptr::read(read_ptr);
                ptr::copy(dst, dst.offset(1), (i - j) as usize);
                ptr::write(dst, tmp);
            }"""),
("mi_check_order", "algorithms.rs", """    debug_assert!(data.len() >= 1);
    if left_end > data.len() || left_end > buffer.len() {
        Err("merge_internal: data or buffer too short")?;
    }
    scope(data, move |mut data| {
        let r = data.range();
        scope(&mut buffer[..left_end], |mut buffer| {""", """    debug_assert!(data.len() >= 1);
    if left_end > buffer.len() || left_end > data.len() {
        return Err(AlgorithmError("merge_internal: data or buffer too short"));
    }
    scope(data, move |mut data| {
        let r = data.range();
        scope(&mut buffer[..left_end], |mut buffer| {"""),
("eq_flip", "indexing.rs", "self.start == other.start && self.end == other.end", "self.end == other.end && self.start == other.start"),
("cmp_partial", "indexing.rs", "Some(Ord::cmp(&self.order_key(), &rhs.order_key()))", "let (a, b) = (self.order_key(), rhs.order_key());\n        Some(a.cmp(&b))"),
("p_scan_tail", "pointer.rs", """            let container_start = self.pointer_range().start;
            let mut end = index.ptr();
            loop {
                if container_start == end {
                    break;
                }
                if !f(&*end.offset(-1)) {
                    break;
                }
                end.dec();
            }""", """            let base = self.begin();
            let mut end = index.ptr();
            while end != base && f(&*end.offset(-1)) {
                end = end.offset(-1);
            }"""),
("p_scan_pr", "pointer.rs", """            let mut ptr = range.start;
            while ptr != range.end {
                if !f(&*ptr) {
                    break;
                }
                ptr.inc();
            }""", """            let mut ptr = range.start;
            while ptr != range.end && f(&*ptr) {
                ptr.inc();
            }"""),
("p_zip", "pointer.rs", """        let end = r1.first().ptr().offset(len as isize);
        let mut ptr1 = r1.first().ptr();
        let mut ptr2 = r2.first().ptr();
        while ptr1 != end {
            f(C1::dereference(ptr1), C2::dereference(ptr2));
            ptr1.inc();
            ptr2.inc();
        }""", """        let mut ptr1 = r1.first().ptr();
        let mut ptr2 = r2.first().ptr();
        for _ in 0..len {
            f(C1::dereference(ptr1), C2::dereference(ptr2));
            ptr1.inc();
            ptr2.inc();
        }"""),
("p_rot", "pointer.rs", """            let last_ptr = r.last().ptr();
            let first_ptr = r.first().ptr_mut();
            if first_ptr as *const _ == last_ptr {
                return;
            }
            let tmp = ptr::read(last_ptr);""", """            let first_ptr = r.first().ptr_mut();
            let last_ptr = r.last().ptr();
            if r.len() == 1 {
                return;
            }
            let tmp = ptr::read(last_ptr);"""),
("p_split_half", "pointer.rs", """            let mid_offset = self.len() / 2;
            let mid = self.start.offset(mid_offset as isize);
            (PRange::new(self.start, mid), PRange::new(mid, self.end))""", """            let half = (self.len() / 2) as isize;
            let (start, mid) = (self.start, self.start.offset(half));
            (PRange::new(start, mid), PRange::new(mid, self.end))"""),
("p_adv", "pointer.rs", """            let next_ptr = self.start.offset(1);
            if next_ptr != self.end {
                self.start = next_ptr;
                true
            } else {
                false
            }""", """            let next_ptr = self.start.offset(1);
            if next_ptr == self.end {
                return false;
            }
            self.start = next_ptr;
            true"""),
("p_dist_helper", "pointer.rs", """    (a as usize - b as usize) / mem::size_of::<T>()""", """    let bytes = a as usize - b as usize;
    bytes / mem::size_of::<T>()"""),
("lb_match", "algorithms.rs", """        let mut range = v.range();
        while let Ok(range_) = range.nonempty() {
            let (a, b) = range_.split_in_half();
            if v[b.first()] < *elt {
                range = b.tail();
            } else {
                range = a;
            }
        }
        range.start()""", """        let mut range = v.range();
        while let Ok(range_) = range.nonempty() {
            let (a, b) = range_.split_in_half();
            let less = v[b.first()] < *elt;
            range = if less { b.tail() } else { a };
        }
        range.start()"""),
("bs_tail", "algorithms.rs", """            let (a, b) = range.split_in_half();
            if let Ok(b_) = b.nonempty() {
                let mid = b_.first();
                match f(&v[mid]) {
                    Ordering::Equal => return Ok(mid.integer()),
                    Ordering::Greater => range = a,
                    Ordering::Less => range = b_.tail(),
                }
            } else {
                break;
            }
        }
        Err(range.start())""", """            let (a, b) = range.split_in_half();
            match b.nonempty() {
                Ok(b_) => {
                    let mid = b_.first();
                    match f(&v[mid]) {
                        Ordering::Less => range = b_.tail(),
                        Ordering::Equal => return Ok(mid.integer()),
                        Ordering::Greater => range = a,
                    }
                }
                Err(_) => break,
            }
        }
        Err(range.start())"""),
("heap_helper", "algorithms.rs", """                let mut right = child;
                if v.forward(&mut right) && v[child] > v[right] {
                    child = right;
                }
                // sift down is done if we are already in order
                if v[pos] <= v[child] {
                    break;
                }""", """                let mut other = child;
                if v.forward(&mut other) && v[other] < v[child] {
                    child = other;
                }
                if v[pos] <= v[child] {
                    break;
                }"""),
("mr_matches", "algorithms.rs", """                    swap(&mut buffer[i.first()], &mut data[out.first()]);
                    if !out.advance() { return; }
                    if !i.advance() { return; }""", """                    swap(&mut data[out.first()], &mut buffer[i.first()]);
                    if !i.advance() { return; }
                    if !out.advance() { return; }"""),
("mi_names", "algorithms.rs", """                if buffer[i] <= data[j] {
                    swap(&mut buffer[i], &mut data[out]);
                    data.forward(&mut out);
                    if !buffer.forward(&mut i) { break; }""", """                let left_first = buffer[i] <= data[j];
                if left_first {
                    swap(&mut buffer[i], &mut data[out]);
                    data.forward(&mut out);
                    let more = buffer.forward(&mut i);
                    if !more { break; }"""),
("qsr_pivot_fn", "algorithms.rs", """            // partition
            let mut scan = range;
            v.swap(scan.first(), pivot);""", """            let mut scan = range;
            v.swap(pivot, scan.first());"""),
("qsr_while", "algorithms.rs", """                        if v[scan.last()] <= v[pivot] {
                            v.swap(scan.first(), scan.last());
                            break;
                        }
                        if !scan.advance_back() {
                            break 'main;
                        }""", """                        if v[scan.last()] > v[pivot] {
                            if scan.advance_back() {
                                continue;
                            }
                            break 'main;
                        }
                        v.swap(scan.first(), scan.last());
                        break;"""),
("copy_if", "algorithms.rs", "    let count = cmp::min(a.len(), b.len());", "    let count = if a.len() < b.len() { a.len() } else { b.len() };"),
("adv_direct", "indexing.rs", """        let mut next = *self;
        next.start += 1;
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }""", """        let start = self.start + 1;
        let ok = start < self.end;
        if ok {
            self.start = start;
        }
        ok"""),
("frac_interval", "indexing.rs", """        let start = self.0;
        self.0 += dec;
        self.1 += frac;
        if self.1 >= self.2 {
            self.1 -= self.2;
            self.0 += 1;
        }
        (start, self.0)""", """        let Frac(start, part, divisor) = *self;
        let carry = part + frac >= divisor;
        self.1 = if carry { part + frac - divisor } else { part + frac };
        self.0 = start + dec + carry as usize;
        (start, self.0)"""),
("fracstep_new", "indexing.rs", """        let len = end - start;
        let decimal_step = len / divisor;
        let frac_step = len % divisor;
        if decimal_step == 0 {
            end = start;
        }""", """        let len = end - start;
        let decimal_step = len / divisor;
        let frac_step = len - decimal_step * divisor;
        if len < divisor {
            end = start;
        }"""),
("subdiv_next", "indexing.rs", """        self.fs.next().map(|(i, j)| {
            debug_assert!(self.range.contains(i).is_some());
            debug_assert!(self.range.contains(j).is_some() || j == self.range.end);
            debug_assert!(i != j);
            unsafe {
                Range::from_ne(i, j)
            }
        })""", """        match self.fs.next() {
            Some((i, j)) => {
                debug_assert!(i != j);
                Some(unsafe { Range::from_ne(i, j) })
            }
            None => None,
        }"""),
("iter_next", "indexing.rs", """        if self.start < self.end {
            let index = self.start;
            self.start += 1;
            unsafe {
                Some(Index::new(index))
            }
        } else {
            None
        }""", """        if self.start == self.end {
            return None;
        }
        let index = unsafe { Index::new(self.start) };
        self.start += 1;
        Some(index)"""),
("tail_from", "indexing.rs", """            Range::from(self.start + 1, self.end)""", """            let Range { start, end, .. } = self;
            Range::from(start + 1, end)"""),
("umid", "indexing.rs", """        let mid = self.len() / 2 + self.start;
        unsafe {
            Index::new(mid)
        }""", """        unsafe { Index::new(self.start + (self.end - self.start) / 2) }"""),
("umid2", "indexing.rs", """        let mid = self.len() / 2 + self.start;
        unsafe {
            Index::new(mid)
        }""", """        unsafe { Index::new(self.start + (self.len() >> 1)) }"""),
("idx_from", "container.rs", """        let i = r.start.index;
        unsafe {
            std::slice::from_raw_parts(
                self.arr.begin().offset(i as isize),
                self.len() - i)
        }""", """        let i = r.start.index;
        let n = self.len() - i;
        unsafe {
            let p = self.arr.begin().add(i);
            std::slice::from_raw_parts(p, n)
        }"""),
("idx_from_delegate", "container.rs", """        let i = r.start.index;
        unsafe {
            std::slice::from_raw_parts(
                self.arr.begin().offset(i as isize),
                self.len() - i)
        }""", """        let range = unsafe { Range::from(r.start.index, self.len()) };
        &self[range]"""),
("index_slice", "container.rs", """            std::slice::from_raw_parts(
                self.arr.begin().offset(r.start as isize),
                r.len())""", """            std::slice::from_raw_parts(self.arr.begin().add(r.start), r.end - r.start)"""),
("push_len", "container.rs", """        let i = self.arr.push(element);
        debug_assert!(i < self.arr.base_len());
        unsafe {
            Index::new(i)
        }""", """        let i = self.arr.base_len();
        let j = self.arr.push(element);
        debug_assert!(i == j);
        unsafe {
            Index::new(j)
        }"""),
("zipraw", "container.rs", """        let len = cmp::min(r.len(), s.len());
        for i in 0..len {
            unsafe {
                f(
                    self.arr.xget_unchecked_mut(r.start + i),
                    self.arr.xget_unchecked_mut(s.start + i)
                )
            }
        }""", """        let (rs, ss) = (r.start, s.start);
        for i in 0..cmp::min(s.len(), r.len()) {
            unsafe {
                f(
                    self.arr.xget_unchecked_mut(rs + i),
                    self.arr.xget_unchecked_mut(ss + i)
                )
            }
        }"""),
]
R += [
("q_median_fn","algorithms.rs","""            let mut pivot = if v[l] <= v[m] && v[m] <= v[r] {
                m
            } else if v[m] <= v[l] && v[l] <= v[r] {
                l
            } else {
                r
            };

            // partition
            let mut scan = range;
            v.swap(scan.first(), pivot);
            pivot = scan.first();""","""            let chosen = if v[m] <= v[l] && v[l] <= v[r] && !(v[l] <= v[m] && v[m] <= v[r]) {
                l
            } else if v[l] <= v[m] && v[m] <= v[r] {
                m
            } else {
                r
            };

            // partition
            let mut scan = range;
            let pivot = range.first();
            v.swap(pivot, chosen);"""),
("q_bounds_swap0","algorithms.rs","""    v.swap(0, pivot);
    pivot = 0;
    let mut i = 0;
    let mut j = v.len() - 1;""","""    if pivot != 0 {
        v.swap(0, pivot);
        pivot = 0;
    }
    let (mut i, mut j) = (0, r);"""),
("q_bounds_small","algorithms.rs","""    if v.len() <= QS_INSERTION_SORT_THRESH {
        insertion_sort_ranges(&mut v[..], |x, y| x < y);
        return;
    }""","""    let n = v.len();
    if n <= QS_INSERTION_SORT_THRESH {
        return insertion_sort_ranges(v, |x, y| x < y);
    }"""),
("q_thresh_const","algorithms.rs","const QS_INSERTION_SORT_THRESH: usize = 24;","const QS_INSERTION_SORT_THRESH: usize = 20;"),
("q_range_recurse","algorithms.rs","""            let (a, b) = v.split_at(scan.first());
            //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
            quicksort_range(&mut v[a]);
            quicksort_range(&mut v[b]);""","""            let (left, right) = v.split_at(scan.first());
            if left.len() > 1 {
                quicksort_range(&mut v[left]);
            }
            if right.len() > 1 {
                quicksort_range(&mut v[right]);
            }"""),
("q_index_twice","algorithms.rs","""            quicksort_range(&mut v[a]);
            quicksort_range(&mut v[b]);""","""            if let Ok((lo, hi)) = v.index_twice(a, b) {
                quicksort_range(lo);
                quicksort_range(hi);
            }"""),
("ins_scan_len","algorithms.rs","""                let jtail = v.scan_from_rev(i.first(), |j_elt| less_than(&v[i.first()], j_elt));
                v.rotate1_up(jtail);
            }
        }""","""                let cur = i.first();
                let jtail = v.scan_from_rev(cur, |j_elt| less_than(&v[cur], j_elt));
                if jtail.len() > 1 {
                    v.rotate1_up(jtail);
                }
            }
        }"""),
("ins2_order","algorithms.rs","""            v.rotate1_up(jtail);
            u.rotate1_up(jtail);""","""            u.rotate1_up(jtail);
            v.rotate1_up(jtail);"""),
("ins_rust_ptr","algorithms.rs","""            while j > 0 && less_than(&*read_ptr, &*buf_v.offset(j - 1)) {
                j -= 1;
            }""","""            loop {
                if j == 0 {
                    break;
                }
                let prev = buf_v.offset(j - 1);
                if !less_than(&*read_ptr, &*prev) {
                    break;
                }
                j -= 1;
            }"""),
("ins_rust_copy_swap","algorithms.rs","""                ptr::copy_nonoverlapping(&tmp, buf_v.offset(j), 1);
                mem::forget(tmp);""","""                ptr::write(buf_v.offset(j), tmp);"""),
("bs2_iter","algorithms.rs","""    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""","""    let mut i = 0;
    while i != count {
        swap(&mut a[i], &mut b[i]);
        i += 1;
    }"""),
("bs2_zip","algorithms.rs","""    let count = cmp::min(a.len(), b.len());
    let a = &mut a[..count];
    let b = &mut b[..count];
    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""","""    for (x, y) in a.iter_mut().zip(b.iter_mut()) {
        swap(x, y);
    }"""),
("mi_iflet","algorithms.rs","""            let mut i = match rb.contains(0) {
                Some(i) => i,
                None => return,
            };
            let mut out = match r.contains(0) {
                Some(i) => i,
                None => return,
            };""","""            let (mut i, mut out) = match (rb.contains(0), r.contains(0)) {
                (Some(i), Some(out)) => (i, out),
                _ => return,
            };"""),
("mi_le_not_gt","algorithms.rs","""                if buffer[i] <= data[j] {
                    swap(&mut buffer[i], &mut data[out]);
                    data.forward(&mut out);
                    if !buffer.forward(&mut i) { break; }
                } else {""","""                let from_left = buffer[i] <= data[j];
                if from_left {
                    swap(&mut data[out], &mut buffer[i]);
                    data.forward(&mut out);
                    if buffer.forward(&mut i) { continue; }
                    break;
                } else {"""),
("mr_tail_after","algorithms.rs","""                    data.swap(j.first(), out.first());
                    if !out.advance() { return; }
                    if !j.advance() {
                        // block swap remainder
                        block_swap2(&mut buffer[i], &mut data[out]);
                        break;
                    }""","""                    data.swap(out.first(), j.first());
                    if !out.advance() { return; }
                    if j.advance() { continue; }
                    // block swap remainder
                    block_swap2(&mut data[out], &mut buffer[i]);
                    return;"""),
("mr_err_return","algorithms.rs","""    debug_assert!(data.len() >= 1);
    if left_end > data.len() || left_end > buffer.len() {
        Err("merge_internal: data or buffer too short")?;
    }
    scope(data, |mut data| {""","""    debug_assert!(data.len() >= 1);
    let fits = left_end <= data.len() && left_end <= buffer.len();
    if !fits {
        return Err(AlgorithmError::from("merge_internal: data or buffer too short"));
    }
    scope(data, |mut data| {"""),
("heap_child_fn","algorithms.rs","""                let mut right = child;
                if v.forward(&mut right) && v[child] > v[right] {
                    child = right;
                }""","""                if let Ok(right) = v.vet(child.integer() + 1) {
                    if v[right] < v[child] {
                        child = right;
                    }
                }"""),
("heap_idx","algorithms.rs","""            while let Ok(mut child) = v.vet(pos.integer() * 2 + 1) {""","""            while let Ok(mut child) = v.vet(2 * pos.integer() + 1) {"""),
("heap_noif","algorithms.rs","""                // sift down is done if we are already in order
                if v[pos] <= v[child] {
                    break;
                }
                //puts!("mov {:?} => {:?} (value={:?})", pos, child, &v[pos]);
                v.swap(pos, child);
                pos = child;""","""                let ordered = v[pos] <= v[child];
                if ordered {
                    break;
                }
                v.swap(child, pos);
                pos = child;"""),
("bs_by_while","algorithms.rs","""            let (a, b) = range.split_in_half();
            if let Ok(b_) = b.nonempty() {
                let mid = b_.first();
                match f(&v[mid]) {
                    Ordering::Equal => return Ok(mid.integer()),
                    Ordering::Greater => range = a,
                    Ordering::Less => range = b_.tail(),
                }
            } else {
                break;
            }
        }
        Err(range.start())""","""            let (lower, upper) = range.split_in_half();
            let upper = match upper.nonempty() {
                Ok(u) => u,
                Err(_) => return Err(range.start()),
            };
            let mid = upper.first();
            let ord = f(&v[mid]);
            if ord == Ordering::Equal {
                return Ok(mid.integer());
            }
            range = if ord == Ordering::Less { upper.tail() } else { lower };
        }"""),
("bs_prange_map","algorithms.rs","""        match binary_search_by_prange_(v.pointer_range(), &v, compare) {
            Ok(p) => Ok(v.distance_to(p)),
            Err(p) => Err(v.distance_to(p)),
        }""","""        binary_search_by_prange_(v.pointer_range(), &v, compare)
            .map(|p| v.distance_to(p))
            .map_err(|p| v.distance_to(p))"""),
("bs_closure","algorithms.rs","binary_search_by(v, |x| x.cmp(elt))","binary_search_by(v, |x| elt.cmp(x).reverse())"),
("lb_loop","algorithms.rs","""        let mut range = v.range();
        while let Ok(range_) = range.nonempty() {
            let (a, b) = range_.split_in_half();
            if v[b.first()] < *elt {
                range = b.tail();
            } else {
                range = a;
            }
        }
        range.start()""","""        let mut range = v.range();
        loop {
            let ne = match range.nonempty() {
                Ok(ne) => ne,
                Err(_) => break,
            };
            let (a, b) = ne.split_in_half();
            let mid = b.first();
            range = if v[mid] < *elt { b.tail() } else { a };
        }
        range.start()"""),
("i_is_empty","indexing.rs","pub fn is_empty(&self) -> bool { self.start >= self.end }","pub fn is_empty(&self) -> bool { self.len() == 0 }"),
("i_last_from_end","indexing.rs","""            Index::new(self.end - 1)
        }
    }""","""            Index::new(self.start + (self.len() - 1))
        }
    }"""),
("i_adv_len","indexing.rs","""    pub fn advance(&mut self) -> bool
    {
        let mut next = *self;
        next.start += 1;
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }
    }""","""    pub fn advance(&mut self) -> bool
    {
        if self.end - self.start > 1 {
            self.start += 1;
            true
        } else {
            false
        }
    }"""),
("i_adv_by_len","indexing.rs","""        let mut next = *self;
        next.start = next.start.saturating_add(offset);
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }""","""        if offset >= self.len() {
            return false;
        }
        self.start += offset;
        true"""),
("i_adv_checked","indexing.rs","""        let mut next = *self;
        next.start = next.start.saturating_add(offset);
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }""","""        match self.start.checked_add(offset) {
            Some(start) if start < self.end => {
                self.start = start;
                true
            }
            _ => false,
        }"""),
("i_frange_clamp","indexing.rs","""        let start = cmp::min(r.start.saturating_add(offset), max);
        let end = cmp::min(r.end.saturating_add(offset), max);
        unsafe {
            Range::from(start, end)
        }""","""        let clamp = |i: usize| cmp::min(i.saturating_add(offset), max);
        unsafe {
            Range::from(clamp(r.start), clamp(r.end))
        }"""),
("i_frontier_names","indexing.rs","""        let s = self.start;
        let e = self.end;
        unsafe {
            (Range::from(s, s), Range::from(e, e))
        }""","""        let empty_at = |i: usize| unsafe { Range::from(i, i) };
        (empty_at(self.start), empty_at(self.end))"""),
("i_join_match","indexing.rs","""        if self.end == other.start {
            unsafe {
                Ok(Range::from_any(self.start, other.end))
            }
        } else {
            Err(index_error())
        }""","""        if self.end != other.start {
            return Err(index_error());
        }
        let joined = unsafe { Range::from_any(self.start, other.end) };
        Ok(joined)"""),
("i_jcb_sort","indexing.rs","""        let start = cmp::min(self.start, other.start);
        let end = cmp::max(self.end, other.end);
        unsafe {
            Range::from_any(start, end)
        }""","""        let start = self.start.min(other.start);
        let end = self.end.max(other.end);
        unsafe { Range::from_any(start, end) }"""),
("c_forward_range","container.rs","""        let i = index.index + 1;
        if i < self.len() {
            index.index = i;
            true
        } else { false }""","""        let len = self.len();
        match index.index + 1 {
            i if i < len => {
                index.index = i;
                true
            }
            _ => false,
        }"""),
("c_backward_checked","container.rs","""        let i = index.index;
        if i > 0 {
            index.index = i - 1;
            true
        } else { false }""","""        match index.index.checked_sub(1) {
            Some(i) => {
                index.index = i;
                true
            }
            None => false,
        }"""),
("c_vet_contains","container.rs","""        if index < self.len() {
            unsafe {
                Ok(Index::new(index))
            }
        } else {
            Err(index_error())
        }""","""        self.range().contains(index).ok_or_else(index_error)"""),
("c_split_after","container.rs","""        let mid = index.index + 1; // must be <= len since `index` is in bounds
        unsafe {
            (Range::from_ne(0, mid), Range::from(mid, self.len()))
        }""","""        let len = self.len();
        let mid = index.index + 1; // must be <= len since `index` is in bounds
        debug_assert!(mid <= len);
        let (first, second) = unsafe {
            (Range::from_ne(0, mid), Range::from(mid, len))
        };
        (first, second)"""),
("c_before_direct","container.rs","        self.range_of(..index)","        unsafe { Range::from(0, index.index) }"),
("c_after_direct","container.rs","        self.range_of(index.after()..)","        self.split_after(index).1"),
("c_scan_from_count","container.rs","""        let mut end = index;
        for elt in &self[self.after(index)] {
            if !f(elt) {
                break;
            }
            end.index += 1;
        }
        end.index += 1;
        unsafe {
            Range::from_ne(index.index, end.index)
        }""","""        let run = self[self.after(index)].iter().take_while(|&elt| f(elt)).count();
        unsafe {
            Range::from_ne(index.index, index.index + 1 + run)
        }"""),
("c_scan_range_position","container.rs","""        let mut end = range.start;
        for elt in &self[range] {
            if !f(elt) {
                break;
            }
            end += 1;
        }
        unsafe {""","""        let elts = &self[range];
        let end = range.start + elts.iter().position(|elt| !f(elt)).unwrap_or(elts.len());
        unsafe {"""),
("c_rot_write","container.rs","""                    ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
                    mem::forget(tmp);
                }
            }
        }
    }

    /// Rotate elements in the range `r` by one step to the left""","""                    ptr::write(first_ptr, tmp);
                }
            }
        }
    }

    /// Rotate elements in the range `r` by one step to the left"""),
("c_zip_mut","container.rs","""        let len = cmp::min(r.len(), s.len());
        for i in 0..len {
            unsafe {
                f(
                    self.arr.xget_unchecked_mut(r.start + i),
                    self.arr.xget_unchecked_mut(s.start + i)
                )
            }
        }""","""        let len = cmp::min(r.len(), s.len());
        let (r0, s0) = (r.start, s.start);
        let mut i = 0;
        while i < len {
            unsafe {
                let p: *mut T = self.arr.xget_unchecked_mut(r0 + i);
                let q: *mut T = self.arr.xget_unchecked_mut(s0 + i);
                f(p, q);
            }
            i += 1;
        }"""),
("c_insert_local","container.rs","""        debug_assert!(index.index <= self.arr.base_len());
        unsafe {
            self.arr.insert_unchecked(index.index, element);
        }""","""        let at = index.index;
        debug_assert!(at <= self.arr.base_len());
        unsafe { self.arr.insert_unchecked(at, element) }"""),
("p_len_mul","pointer.rs","pub fn is_empty(self) -> bool { self.start == self.end }","pub fn is_empty(self) -> bool { self.end == self.start }"),
("p_adv_last","pointer.rs","""            let next_ptr = self.start.offset(1);
            if next_ptr != self.end {
                self.start = next_ptr;
                true
            } else {
                false
            }""","""            let next_ptr = self.start.offset(1);
            let more = next_ptr != self.end;
            if more {
                self.start = next_ptr;
            }
            more"""),
("p_advb_len","pointer.rs","""            let next_end = self.end.offset(-1);
            if self.start != next_end {
                self.end = next_end;
                true
            } else {
                false
            }""","""            let next_end = self.end.offset(-1);
            if self.start == next_end {
                return false;
            }
            self.end = next_end;
            true"""),
("p_pr_of_match","pointer.rs","""            let start = r.start().map_or(self.begin(), PIndex::ptr);
            let end = r.end().map_or(self.end(), PIndex::ptr);
            PRange::new(start, end)""","""            let start = match r.start() { Some(p) => p.ptr(), None => self.begin() };
            let end = match r.end() { Some(p) => p.ptr(), None => self.end() };
            PRange::new(start, end)"""),
("p_rot_if","pointer.rs","""            if first_ptr as *const _ == last_ptr {
                return;
            }
            let tmp = ptr::read(last_ptr);
            ptr::copy(first_ptr,
                      first_ptr.offset(1),
                      r.len() - 1);
            ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
            mem::forget(tmp);""","""            let n = r.len() - 1;
            if n > 0 {
                let tmp = ptr::read(last_ptr);
                ptr::copy(first_ptr, first_ptr.offset(1), n);
                ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
                mem::forget(tmp);
            }"""),
("p_split_cont","pointer.rs","""            let ptr1 = pr.start as *mut _;
            let ptr2 = index.idx as *mut _;
            let s1 = from_raw_parts_mut(ptr1, mid);
            let s2 = from_raw_parts_mut(ptr2, pr.len() - mid);""","""            let total = pr.len();
            let s1 = from_raw_parts_mut(pr.start as *mut T, mid);
            let s2 = from_raw_parts_mut(index.idx as *mut T, total - mid);"""),
("p_zip_names","pointer.rs","""        let end = r1.first().ptr().offset(len as isize);
        let mut ptr1 = r1.first().ptr();
        let mut ptr2 = r2.first().ptr();
        while ptr1 != end {
            f(C1::dereference(ptr1), C2::dereference(ptr2));
            ptr1.inc();
            ptr2.inc();
        }""","""        let (mut ptr1, mut ptr2) = (r1.first().ptr(), r2.first().ptr());
        for _ in 0..len {
            f(C1::dereference(ptr1), C2::dereference(ptr2));
            ptr1.inc();
            ptr2.inc();
        }"""),
("p_nonempty_rng","pointer.rs","""        if (a.idx as usize) < b.idx as usize {
            unsafe {
                Ok(PRange::new(a.idx, b.idx))
            }
        } else {
            Err(index_error())
        }""","""        if a.idx as usize >= b.idx as usize {
            return Err(index_error());
        }
        unsafe { Ok(PRange::new(a.idx, b.idx)) }"""),
("p_scan_tail_while","pointer.rs","""            let container_start = self.pointer_range().start;
            let mut end = index.ptr();
            loop {
                if container_start == end {
                    break;
                }
                if !f(&*end.offset(-1)) {
                    break;
                }
                end.dec();
            }
            PRange::new(end, index.ptr().offset(1))""","""            let container_start = self.begin();
            let mut start = index.ptr();
            while start != container_start && f(&*start.offset(-1)) {
                start.dec();
            }
            PRange::new(start, index.ptr().offset(1))"""),
("t_slice_end","container_traits.rs","""            self.begin().add(self.len())""","""            let p = self.as_ptr();
            p.add(self.len())"""),
]
R += [
# indexing.rs
("x_contains_bool","indexing.rs","""            if abs_index >= self.start && abs_index < self.end {
                Some(Index::new(abs_index))
            } else { None }""","""            if abs_index < self.start || abs_index >= self.end {
                return None;
            }
            Some(Index::new(abs_index))"""),
("x_contains_sub","indexing.rs","""            if abs_index >= self.start && abs_index < self.end {
                Some(Index::new(abs_index))
            } else { None }""","""            match abs_index.checked_sub(self.start) {
                Some(rel) if rel < self.len() => Some(Index::new(abs_index)),
                _ => None,
            }"""),
("x_contains_then","indexing.rs","""            if abs_index >= self.start && abs_index < self.end {
                Some(Index::new(abs_index))
            } else { None }""","""            Some(abs_index).filter(|&i| self.start <= i && i < self.end).map(|i| Index::new(i))"""),
("x_split_clamp","indexing.rs","""        let mid = if index > self.len() {
             self.end
        } else { self.start + index };
        unsafe {
            (Range::from(self.start, mid), Range::from(mid, self.end),
             index <= self.len())
        }""","""        let fits = index <= self.len();
        let mid = self.start + cmp::min(index, self.len());
        unsafe {
            (Range::from(self.start, mid), Range::from(mid, self.end), fits)
        }"""),
("x_split_saturating","indexing.rs","""        let mid = if index > self.len() {
             self.end
        } else { self.start + index };""","""        let mid = cmp::min(self.start.saturating_add(index), self.end);"""),
("x_half_len","indexing.rs","""        let mid = (self.end - self.start) / 2 + self.start;
        unsafe {
            (Range::from(self.start, mid), Range::from_any(mid, self.end))
        }""","""        let mid = self.upper_middle().index;
        unsafe {
            let front = Range::from(self.start, mid);
            let back = Range::from_any(mid, self.end);
            (front, back)
        }"""),
("x_half_avg","indexing.rs","        let mid = (self.end - self.start) / 2 + self.start;\n        unsafe {\n            (Range::from(self.start, mid)","        let (lo, hi) = (self.start, self.end);\n        let mid = hi - (hi - lo + 1) / 2;\n        unsafe {\n            (Range::from(self.start, mid)"),
("x_forward_by_guard","indexing.rs","""        let i = index.index.saturating_add(offset);
        if i < self.end {
            index.index = i;
            true
        } else { false }""","""        match index.index.checked_add(offset) {
            None => false,
            Some(i) if i >= self.end => false,
            Some(i) => {
                index.index = i;
                true
            }
        }"""),
("x_forward_by_and","indexing.rs","""        let i = index.index.saturating_add(offset);
        if i < self.end {
            index.index = i;
            true
        } else { false }""","""        let i = index.index.saturating_add(offset);
        let inside = i < self.end;
        if inside {
            index.index = i;
        }
        inside"""),
("x_jcb_let","indexing.rs","""        let start = cmp::min(self.start, other.start);
        let end = cmp::max(self.end, other.end);""","""        let start = if other.start < self.start { other.start } else { self.start };
        let end = if other.end > self.end { other.end } else { self.end };"""),
("x_lower_mid_calc","indexing.rs","        let mid = (self.len() - 1) / 2 + self.start;","        let mid = self.start + (self.end - self.start - 1) / 2;"),
("x_lower_mid_init","indexing.rs","        let mid = (self.len() - 1) / 2 + self.start;\n        unsafe {\n            Index::new(mid)\n        }","        let init = self.init();\n        unsafe {\n            Index::new(init.start + init.len() / 2)\n        }"),
("x_advance_via_by","indexing.rs","""    pub fn advance(&mut self) -> bool
    {
        let mut next = *self;
        next.start += 1;
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }
    }""","""    pub fn advance(&mut self) -> bool
    {
        self.advance_by(1)
    }"""),
("x_advance_via_adv","indexing.rs","""    pub fn advance(&mut self) -> bool
    {
        let mut next = *self;
        next.start += 1;
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }
    }""","""    pub fn advance(&mut self) -> bool
    {
        match self.advance_() {
            Ok(next) => { *self = next; true }
            Err(_) => false,
        }
    }"""),
("x_advance_tail","indexing.rs","""    pub fn advance(&mut self) -> bool
    {
        let mut next = *self;
        next.start += 1;
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }
    }""","""    pub fn advance(&mut self) -> bool
    {
        if let Ok(next) = self.tail().nonempty() {
            *self = next;
            return true;
        }
        false
    }"""),
("x_advance_len","indexing.rs","""        let mut next = *self;
        next.end -= 1;
        if next.start < next.end {
            *self = next;
            true
        } else {
            false
        }""","""        let more = self.len() > 1;
        if more { self.end -= 1; }
        more"""),
("x_iter_checked","indexing.rs","""        if self.start < self.end {
            self.end -= 1;
            unsafe {
                Some(Index::new(self.end))
            }
        } else {
            None
        }""","""        if self.start >= self.end {
            return None;
        }
        let last = self.end - 1;
        self.end = last;
        Some(unsafe { Index::new(last) })"""),
("x_iter_replace","indexing.rs","""            let index = self.start;
            self.start += 1;
            unsafe {
                Some(Index::new(index))
            }""","""            let next = self.start + 1;
            let index = std::mem::replace(&mut self.start, next);
            unsafe {
                Some(Index::new(index))
            }"""),
# container.rs
("x_vet_guard","container.rs","""        if index < self.len() {
            unsafe {
                Ok(Index::new(index))
            }
        } else {
            Err(index_error())
        }""","""        self.range().contains(index).ok_or_else(index_error)"""),
("x_vet_match","container.rs","""        if index < self.len() {
            unsafe {
                Ok(Index::new(index))
            }
        } else {
            Err(index_error())
        }""","""        match self.range().contains(index) {
            Some(i) => Ok(i),
            None => Err(index_error()),
        }"""),
("x_vetr_neg","container.rs","""        if r.start <= r.end && r.end <= self.len() {
            unsafe {
                Ok(Range::from(r.start, r.end))
            }
        } else {
            Err(index_error())
        }""","""        if r.end > self.len() || r.end < r.start {
            return Err(index_error());
        }
        unsafe {
            Ok(Range::from(r.start, r.end))
        }"""),
("x_before_split","container.rs","        self.range_of(..index)\n","        self.split_at(index).0\n"),
("x_range_of_map_or","container.rs","""            let start = r.start().map(|i| i.index).unwrap_or(0);
            let end = r.end().map(|i| i.index).unwrap_or(self.len());""","""            let start = r.start().map_or(0, |i| i.index);
            let end = r.end().map_or(self.len(), |i| i.index);"""),
("x_range_of_match","container.rs","""            let start = r.start().map(|i| i.index).unwrap_or(0);
            let end = r.end().map(|i| i.index).unwrap_or(self.len());""","""            let start = match r.start() { Some(i) => i.index, None => 0 };
            let end = match r.end() { Some(i) => i.index, None => self.len() };"""),
("x_forward_via_by","container.rs","""        let i = index.index + 1;
        if i < self.len() {
            index.index = i;
            true
        } else { false }""","""        self.forward_by(index, 1)"""),
("x_forward_last","container.rs","""        let i = index.index + 1;
        if i < self.len() {
            index.index = i;
            true
        } else { false }""","""        if index.index + 1 == self.len() {
            false
        } else {
            index.index += 1;
            true
        }"""),
("x_backward_zero","container.rs","""        let i = index.index;
        if i > 0 {
            index.index = i - 1;
            true
        } else { false }""","""        if index.index == 0 {
            return false;
        }
        index.index -= 1;
        true"""),
("x_scan_from_pos","container.rs","""        let mut end = index;
        for elt in &self[self.after(index)] {
            if !f(elt) {
                break;
            }
            end.index += 1;
        }
        end.index += 1;
        unsafe {
            Range::from_ne(index.index, end.index)
        }""","""        let tail = &self[self.after(index)];
        let run = tail.iter().position(|elt| !f(elt)).unwrap_or(tail.len());
        unsafe {
            Range::from_ne(index.index, index.index + 1 + run)
        }"""),
("x_scan_rev_start","container.rs","""            let mut start = index;
            for elt in self[..index].iter().rev() {
                if !f(elt) {
                    break;
                }
                start.index -= 1;
            }
            Range::from_ne(start.index, index.index + 1)""","""            let mut start = index.index;
            for elt in self[..index].iter().rev() {
                if f(elt) {
                    start -= 1;
                } else {
                    break;
                }
            }
            Range::from_ne(start, index.index + 1)"""),
("x_swap_if","container.rs","""            let self_mut = self as *mut Self;
            let pi: *mut _ = &mut (*self_mut)[i];
            let pj: *mut _ = &mut (*self_mut)[j];
            ptr::swap(pi, pj);""","""            if i == j {
                return;
            }
            let self_mut = self as *mut Self;
            let pi: *mut _ = &mut (*self_mut)[i];
            let pj: *mut _ = &mut (*self_mut)[j];
            ptr::swap(pj, pi);"""),
("x_rot_len","container.rs","""            if r.first() != r.last() {
                unsafe {
                    let last_ptr = &self[r.last()] as""","""            if r.len() >= 2 {
                unsafe {
                    let last_ptr = &self[r.last()] as"""),
("x_rot_early","container.rs","""        if let Ok(r) = r.into() {
            if r.first() != r.last() {
                unsafe {
                    let last_ptr = &mut self[r.last()] as *mut Array::Item;""","""        if let Ok(r) = r.into() {
            if r.first() == r.last() {
                return;
            }
            {
                unsafe {
                    let last_ptr = &mut self[r.last()] as *mut Array::Item;"""),
("x_twice_flip","container.rs","""        if r.end <= s.start {
            let self_mut = self as *mut Self;
            unsafe {
                Ok((&mut (*self_mut)[r], &mut (*self_mut)[s]))
            }
        } else {
            Err(index_error())
        }""","""        if s.start < r.end {
            return Err(index_error());
        }
        let self_mut = self as *mut Self;
        unsafe {
            Ok((&mut (*self_mut)[r], &mut (*self_mut)[s]))
        }"""),
# algorithms
("x_qs_last_local","algorithms.rs","""                if v[scan.first()] >= v[pivot] {
                    loop {
                        if v[scan.last()] <= v[pivot] {
                            v.swap(scan.first(), scan.last());
                            break;
                        }
                        if !scan.advance_back() {
                            break 'main;
                        }
                    }
                }
                if !scan.advance() {
                    break;
                }""","""                if !(v[scan.first()] < v[pivot]) {
                    while !(v[scan.last()] <= v[pivot]) {
                        if !scan.advance_back() {
                            break 'main;
                        }
                    }
                    v.swap(scan.first(), scan.last());
                }
                if !scan.advance() {
                    break 'main;
                }"""),
("x_qs_sort_if_else","algorithms.rs","""            let (a, b) = v.split_at(scan.first());
            //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
            quicksort_range(&mut v[a]);
            quicksort_range(&mut v[b]);""","""            let cut = scan.first();
            let (a, b) = v.split_at(cut);
            quicksort_range(&mut v[a]);
            quicksort_range(&mut v[b]);"""),
("x_qs_left_right_swap","algorithms.rs","""            quicksort_range(&mut v[a]);
            quicksort_range(&mut v[b]);""","""            quicksort_range(&mut v[b]);
            quicksort_range(&mut v[a]);"""),
("x_qsb_order","algorithms.rs","    quicksort_bounds(a);\n    quicksort_bounds(b);","    quicksort_bounds(b);\n    quicksort_bounds(a);"),
("x_qsr_order","algorithms.rs","            quicksort_range(&mut v[a]);\n            quicksort_range(&mut v[b]);","            if a.len() < b.len() {\n                quicksort_range(&mut v[a]);\n                quicksort_range(&mut v[b]);\n            } else {\n                quicksort_range(&mut v[b]);\n                quicksort_range(&mut v[a]);\n            }"),
("x_qsp_order","algorithms.rs","            quicksort_prange(&mut v[a]);\n            quicksort_prange(&mut v[b]);","            if a.len() < b.len() {\n                quicksort_prange(&mut v[a]);\n                quicksort_prange(&mut v[b]);\n            } else {\n                quicksort_prange(&mut v[b]);\n                quicksort_prange(&mut v[a]);\n            }"),
("x_ins_rust_jpos","algorithms.rs","""            while j > 0 && less_than(&*read_ptr, &*buf_v.offset(j - 1)) {
                j -= 1;
            }""","""            loop {
                if j == 0 || !less_than(&*read_ptr, &*buf_v.offset(j - 1)) {
                    break;
                }
                j -= 1;
            }"""),
("x_ins_rust_early","algorithms.rs","            if i != j {\n                let tmp","            if j < i {\n                let tmp"),
("x_ins_idx_skip","algorithms.rs","""        for i in v.range() {
            let jtail = v.scan_from_rev(i, |j_elt| less_than(&v[i], j_elt));
            v.rotate1_up(jtail);
        }
    });
}

/// Sort two""","""        for i in v.range() {
            let elt = &v[i];
            let jtail = v.scan_from_rev(i, |j_elt| less_than(elt, j_elt));
            v.rotate1_up(jtail);
        }
    });
}

/// Sort two"""),
("x_bs_swap_arms","algorithms.rs","""                match f(&v[mid]) {
                    Ordering::Equal => return Ok(mid.integer()),
                    Ordering::Greater => range = a,
                    Ordering::Less => range = b_.tail(),
                }""","""                range = match f(&v[mid]) {
                    Ordering::Less => b_.tail(),
                    Ordering::Greater => a,
                    Ordering::Equal => return Ok(mid.integer()),
                };"""),
("x_merge_copy_names","algorithms.rs","""                if buffer[i] <= data[j] {
                    swap(&mut buffer[i], &mut data[out]);
                    data.forward(&mut out);
                    if !buffer.forward(&mut i) { break; }
                } else {""","""                let take_left = buffer[i] <= data[j];
                if take_left {
                    swap(&mut buffer[i], &mut data[out]);
                    data.forward(&mut out);
                    if !buffer.forward(&mut i) { break; }
                } else {"""),
("x_merge_swap_args","algorithms.rs","                    swap(&mut buffer[i], &mut data[out]);","                    swap(&mut data[out], &mut buffer[i]);"),
("x_heap_let_else","algorithms.rs","""                if v[pos] <= v[child] {
                    break;
                }
                //puts!("mov {:?} => {:?} (value={:?})", pos, child, &v[pos]);
                v.swap(pos, child);
                pos = child;""","""                if v[child] < v[pos] {
                    v.swap(child, pos);
                    pos = child;
                } else {
                    break;
                }"""),
("x_bswap_zip","algorithms.rs","""    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""","""    for (x, y) in a.iter_mut().zip(b.iter_mut()) {
        swap(x, y);
    }"""),
("x_bswap_with","algorithms.rs","""    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""","""    a.swap_with_slice(b);"""),
]
R += [
("q_half_mid","pointer.rs","""            let mid_offset = self.len() / 2;
            let mid = self.start.offset(mid_offset as isize);
            (PRange::new(self.start, mid), PRange::new(mid, self.end))""","""            let mid = self.upper_middle().ptr();
            (PRange::new(self.start, mid), PRange::new(mid, self.end))"""),
("q_half_end","pointer.rs","""            let mid_offset = self.len() / 2;
            let mid = self.start.offset(mid_offset as isize);
            (PRange::new(self.start, mid), PRange::new(mid, self.end))""","""            let len = self.len();
            let mid = self.end.offset(-((len - len / 2) as isize));
            let left = PRange::new(self.start, mid);
            let right = PRange::new(mid, self.end);
            (left, right)"""),
("q_half_shift","pointer.rs","""            let mid_offset = self.len() / 2;
            let mid = self.start.offset(mid_offset as isize);
            (PSlice::new(self.start, mid_offset), PSlice::new(mid, self.len() - mid_offset))""","""            let left = self.len >> 1;
            let right = self.len - left;
            (PSlice::new(self.start, left), PSlice::new(self.start.add(left), right))"""),
("q_mid_shift","pointer.rs","""            let mid = ptrdistance(self.end, self.start) / 2;
            PIndex::new(self.start.offset(mid as isize))""","""            let half = self.len() / 2;
            PIndex::new(self.start.add(half))"""),
("q_mid_split","pointer.rs","""            let mid = ptrdistance(self.end, self.start) / 2;
            PIndex::new(self.start.offset(mid as isize))""","""            let (_, right) = self.split_in_half();
            PIndex::new(right.start)"""),
("q_last_sub","pointer.rs","PIndex::inbounds(self.end.offset(-1))","PIndex::inbounds(self.end.sub(1))"),
("q_last_init","pointer.rs","PIndex::inbounds(self.end.offset(-1))","PIndex::inbounds(self.init().end)"),
("q_tail_after","pointer.rs","PRange::new(self.start.offset(1), self.end)","PRange::new(self.first().after().ptr(), self.end)"),
("q_init_mut","pointer.rs","            PRange::new(self.start, self.end.offset(-1))","            let mut end = self.end;\n            end.dec();\n            PRange::new(self.start, end)"),
("q_adv_tail","pointer.rs","""            let next_ptr = self.start.offset(1);
            if next_ptr != self.end {
                self.start = next_ptr;
                true
            } else {
                false
            }""","""            let rest = self.tail();
            if rest.is_empty() {
                return false;
            }
            self.start = rest.start;
            true"""),
("q_adv_len","pointer.rs","""            let next_ptr = self.start.offset(1);
            if next_ptr != self.end {
                self.start = next_ptr;
                true
            } else {
                false
            }""","""            let next_ptr = self.start.offset(1);
            let more = next_ptr != self.end;
            if more {
                self.start = next_ptr;
            }
            more"""),
("q_advb_init","pointer.rs","""            let next_end = self.end.offset(-1);
            if self.start != next_end {
                self.end = next_end;
                true
            } else {
                false
            }""","""            match self.init().nonempty() {
                Ok(r) => { *self = r; true }
                Err(_) => false,
            }"""),
("q_advb_ret","pointer.rs","""            let next_end = self.end.offset(-1);
            if self.start != next_end {
                self.end = next_end;
                true
            } else {
                false
            }""","""            let next_end = self.end.offset(-1);
            if next_end == self.start {
                return false;
            }
            self.end = next_end;
            true"""),
("q_prange_inline","pointer.rs","""            let start = self.begin();
            let end = self.end();
            PRange::new(start, end)""","""            PRange::new(self.array().begin(), self.array().end())"""),
("q_prange_slice","pointer.rs","""            let start = self.begin();
            let end = self.end();
            PRange::new(start, end)""","""            let s = self.array().as_slice();
            let start = s.as_ptr();
            PRange::new(start, start.offset(s.len() as isize))"""),
("q_prange_of_if","pointer.rs","""            let start = r.start().map_or(self.begin(), PIndex::ptr);
            let end = r.end().map_or(self.end(), PIndex::ptr);
            PRange::new(start, end)""","""            let whole = self.pointer_range();
            if let Some(i) = r.start() {
                PRange::new(i.ptr(), whole.end)
            } else if let Some(j) = r.end() {
                PRange::new(whole.start, j.ptr())
            } else {
                whole
            }"""),
("q_nonempty_cmp","pointer.rs","if (a.idx as usize) < b.idx as usize {","if a.ptr() < b.ptr() {"),
("q_nonempty_ge","pointer.rs","""        if (a.idx as usize) < b.idx as usize {
            unsafe {
                Ok(PRange::new(a.idx, b.idx))
            }
        } else {
            Err(index_error())
        }""","""        let (lo, hi) = (a.idx as usize, b.idx as usize);
        if lo >= hi {
            return Err(index_error());
        }
        let range = unsafe { PRange::new(a.ptr(), b.ptr()) };
        Ok(range)"""),
("q_distance_sub","pointer.rs","        ptrdistance(ptr.ptr(), self.begin())","        let start = self.pointer_range().start;\n        ptrdistance(ptr.idx, start)"),
("q_distance_range","pointer.rs","        ptrdistance(ptr.ptr(), self.begin())","        let (before, _) = self.split_at_pointer(ptr);\n        before.len()"),
("q_scan_tail_cond","pointer.rs","""            loop {
                if container_start == end {
                    break;
                }
                if !f(&*end.offset(-1)) {
                    break;
                }
                end.dec();
            }
            PRange::new(end, index.ptr().offset(1))""","""            while container_start != end && f(&*end.offset(-1)) {
                end.dec();
            }
            PRange::new(end, index.after().ptr())"""),
("q_scan_tail_prev","pointer.rs","""                if !f(&*end.offset(-1)) {
                    break;
                }
                end.dec();
            }
            PRange::new(end, index.ptr().offset(1))""","""                let prev = end.offset(-1);
                if !f(&*prev) {
                    break;
                }
                end = prev;
            }
            let stop = index.ptr().offset(1);
            PRange::new(end, stop)"""),
("q_scan_pr_and","pointer.rs","""            while ptr != range.end {
                if !f(&*ptr) {
                    break;
                }
                ptr.inc();
            }""","""            while ptr != range.end && f(&*ptr) {
                ptr.inc();
            }"""),
("q_scan_pr_loop","pointer.rs","""            while ptr != range.end {
                if !f(&*ptr) {
                    break;
                }
                ptr.inc();
            }""","""            loop {
                if ptr == range.end || !f(&*ptr) {
                    break;
                }
                ptr = ptr.offset(1);
            }"""),
("q_scan_pr_iter","pointer.rs","""            let mut ptr = range.start;
            while ptr != range.end {
                if !f(&*ptr) {
                    break;
                }
                ptr.inc();
            }""","""            let mut ptr = range.end;
            for i in range {
                if !f(&*i.ptr()) {
                    ptr = i.ptr();
                    break;
                }
            }"""),
("q_scan_rev_and","pointer.rs","""            while ptr != range.start {
                if !f(&*ptr.offset(-1)) {
                    break;
                }
                ptr.dec();
            }""","""            while ptr != range.start && f(&*ptr.offset(-1)) {
                ptr.dec();
            }"""),
("q_scan_rev_prev","pointer.rs","""                if !f(&*ptr.offset(-1)) {
                    break;
                }
                ptr.dec();
            }
            (PRange""","""                let before = ptr.offset(-1);
                if !f(&*before) {
                    break;
                }
                ptr = before;
            }
            (PRange"""),
("q_split_dir","pointer.rs","""            let pr = self.pointer_range();
            (PRange::new(pr.start, index.idx),
             PRange::new(index.idx, pr.end))""","""            let before = PRange::new(self.begin(), index.ptr());
            let after = PRange::new(index.ptr(), self.end());
            (before, after)"""),
("q_splitc_lens","pointer.rs","""            let mid = self.distance_to(index);
            let pr = self.pointer_range();""","""            let pr = self.pointer_range();
            let mid = ptrdistance(index.ptr(), pr.start);"""),
("q_splitc_ranges","pointer.rs","""                    let r1 = PRange::new(pr.start, index.idx);
                    let r2 = PRange::new(index.idx, pr.end);
                    f(i1, r1, i2, r2)""","""                    f(i1, PRange::new(pr.start, index.idx), i2, PRange::new(index.idx, pr.end))"""),
("q_zip_firsts","pointer.rs","""        let end = r1.first().ptr().offset(len as isize);
        let mut ptr1 = r1.first().ptr();
        let mut ptr2 = r2.first().ptr();""","""        let mut ptr1 = r1.first().ptr();
        let mut ptr2 = r2.first().ptr();
        let end = ptr1.offset(len as isize);"""),
("q_zip_count","pointer.rs","""        let end = r1.first().ptr().offset(len as isize);
        let mut ptr1 = r1.first().ptr();
        let mut ptr2 = r2.first().ptr();
        while ptr1 != end {
            f(C1::dereference(ptr1), C2::dereference(ptr2));
            ptr1.inc();
            ptr2.inc();
        }""","""        let ptr1 = r1.first().ptr();
        let ptr2 = r2.first().ptr();
        for i in 0..len {
            f(C1::dereference(ptr1.add(i)), C2::dereference(ptr2.add(i)));
        }"""),
("q_zip_post","pointer.rs","""            f(C1::dereference(ptr1), C2::dereference(ptr2));
            ptr1.inc();
            ptr2.inc();""","""            f(C1::dereference(ptr1.post_inc()), C2::dereference(ptr2.post_inc()));"""),
("q_zip_if","pointer.rs","    let len = min(r1.len(), r2.len());","    let (n1, n2) = (r1.len(), r2.len());\n    let len = if n1 < n2 { n1 } else { n2 };"),
("q_rot_wrap","pointer.rs","""            if first_ptr as *const _ == last_ptr {
                return;
            }
            let tmp""","""            let len = r.len();
            if len == 1 {
                return;
            }
            let tmp"""),
("q_rot_n","pointer.rs","""            ptr::copy(first_ptr,
                      first_ptr.offset(1),
                      r.len() - 1);""","""            let moved = r.tail().len();
            ptr::copy(first_ptr, first_ptr.offset(1), moved);"""),
("q_rot_write","pointer.rs","""            ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
            mem::forget(tmp);""","""            ptr::write(first_ptr, tmp);"""),
("q_swap_guard","pointer.rs","""        unsafe {
            ptr::swap(i.ptr_mut(), j.ptr_mut())
        }""","""        let (p, q) = (i.ptr_mut(), j.ptr_mut());
        if p != q {
            unsafe { ptr::swap(p, q) }
        }"""),
("q_iter_nonempty","pointer.rs","""        if !self.0.is_empty() {
            unsafe {
                let ptr = self.0.start.post_inc();
                Some(PIndex::inbounds(ptr))
            }
        } else {
            None
        }""","""        if self.0.is_empty() {
            return None;
        }
        let current = self.0.start;
        unsafe {
            self.0.start = current.offset(1);
            Some(PIndex::inbounds(current))
        }"""),
("q_iter_match","pointer.rs","""        if !self.0.is_empty() {
            unsafe {
                let ptr = self.0.start.post_inc();
                Some(PIndex::inbounds(ptr))
            }
        } else {
            None
        }""","""        match self.0.nonempty() {
            Ok(range) => {
                self.0 = range.tail();
                Some(range.first())
            }
            Err(_) => None,
        }"""),
("q_iterb_last","pointer.rs","""        if !self.0.is_empty() {
            unsafe {
                let ptr  = self.0.end.pre_dec();
                Some(PIndex::inbounds(ptr))
            }
        } else {
            None
        }""","""        if let Ok(range) = self.0.nonempty() {
            self.0 = range.init();
            Some(range.last())
        } else {
            None
        }"""),
("q_iter_hint","pointer.rs","        let len = self.len();\n        (len, Some(len))","        let n = self.0.len();\n        (n, Some(n))"),
("q_from_ps_pte","pointer.rs","            PRange::new(range.start, range.start.offset(range.len as isize))","            let end = range.past_the_end().ptr();\n            PRange::new(range.start, end)"),
("q_from_pr_len","pointer.rs","            PSlice::new(range.start, ptrdistance(range.end, range.start))","            PSlice::new(range.first().ptr(), range.len())"),
("q_ps_last_init","pointer.rs","PIndex::inbounds(self.start.offset(self.len() as isize - 1))","PIndex::inbounds(self.start.add(self.len - 1))"),
("q_ps_adv_tail","pointer.rs","""            if self.len() > 1 {
                self.start.inc();
                self.len -= 1;
                true
            } else {
                false
            }""","""            match self.len {
                0 | 1 => false,
                n => {
                    self.len = n - 1;
                    self.start = self.start.offset(1);
                    true
                }
            }"""),
("q_ps_adv_nonempty","pointer.rs","""            if self.len() > 1 {
                self.start.inc();
                self.len -= 1;
                true
            } else {
                false
            }""","""            let rest = self.tail();
            if rest.is_empty() { return false; }
            *self = PSlice::new(rest.start, rest.len);
            true"""),
("q_ps_advb","pointer.rs","""        if self.len() > 1 {
            self.len -= 1;
            true
        } else {
            false
        }""","""        let left = self.len - 1;
        if left != 0 {
            self.len = left;
        }
        left != 0"""),
("q_idx_len","pointer.rs","            from_raw_parts(r.start, r.len())","            let PRange { start, end, .. } = r;\n            from_raw_parts(start, ptrdistance(end, start))"),
("q_idxm_first","pointer.rs","            from_raw_parts_mut(r.start as *mut T, r.len())","            from_raw_parts_mut(r.first().ptr_mut(), r.len())"),
("q_iselem_range","pointer.rs","        debug_assert!(ptr >= arr.as_ptr() && ptr < end);","        let start = arr.as_ptr();\n        debug_assert!(start <= ptr && ptr < end);"),
("q_pindexrange_inl","pointer.rs","""        let len = ptrdistance(end, start);
        unsafe {
            ::std::slice::from_raw_parts(start, len)
        }""","""        unsafe {
            ::std::slice::from_raw_parts(start, ptrdistance(end, start))
        }"""),
("q_dist_guard","pointer.rs","    (a as usize - b as usize) / mem::size_of::<T>()","    let (hi, lo) = (a as usize, b as usize);\n    (hi - lo) / mem::size_of::<T>()"),
("q_after_add","pointer.rs","            PIndex::new(self.idx.offset(1))","            PIndex::new(self.idx.add(1))"),
("q_nonempty_match","pointer.rs","""            if !self.is_empty() {
                Ok(PRange::new(self.start, self.end))
            } else {
                Err(index_error())
            }""","""            match self.is_empty() {
                true => Err(index_error()),
                false => Ok(PRange::new(self.start, self.end)),
            }"""),
]

R += [
("m_rot_md","container.rs","""                    let tmp = ptr::read(last_ptr);
                    ptr::copy(first_ptr,
                              first_ptr.offset(1),
                              r.len() - 1);
                    ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
                    mem::forget(tmp);""","""                    let tmp = mem::ManuallyDrop::new(ptr::read(last_ptr));
                    ptr::copy(first_ptr,
                              first_ptr.offset(1),
                              r.len() - 1);
                    ptr::copy_nonoverlapping(&*tmp, first_ptr, 1);"""),
("m_rot_forget2","container.rs","""                    ptr::copy_nonoverlapping(&tmp, last_ptr, 1);
                    mem::forget(tmp);""","""                    ptr::copy_nonoverlapping(&tmp, last_ptr, 1);
                    let moved = tmp;
                    mem::forget(moved);"""),
("m_rust_md","algorithms.rs","""                let tmp = ptr::read(read_ptr);
                ptr::copy(&*buf_v.offset(j),
                          buf_v.offset(j + 1),
                          (i - j) as usize);
                ptr::copy_nonoverlapping(&tmp, buf_v.offset(j), 1);
                mem::forget(tmp);""","""                let tmp = mem::ManuallyDrop::new(ptr::read(read_ptr));
                ptr::copy(&*buf_v.offset(j),
                          buf_v.offset(j + 1),
                          (i - j) as usize);
                ptr::copy_nonoverlapping(&*tmp, buf_v.offset(j), 1);"""),
("m_rust_slice","algorithms.rs","""                let tmp = ptr::read(read_ptr);
                ptr::copy(&*buf_v.offset(j),
                          buf_v.offset(j + 1),
                          (i - j) as usize);
                ptr::copy_nonoverlapping(&tmp, buf_v.offset(j), 1);
                mem::forget(tmp);""","""                v[j as usize..i as usize + 1].rotate_right(1);"""),
("m_prange_ret","pointer.rs","""            if first_ptr as *const _ == last_ptr {
                return;
            }
            let tmp = ptr::read(last_ptr);
            ptr::copy(first_ptr,
                      first_ptr.offset(1),
                      r.len() - 1);
            ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
            mem::forget(tmp);""","""            if first_ptr as *const _ == last_ptr {
                return;
            }
            let tmp = ptr::read(last_ptr);
            ptr::copy(first_ptr, first_ptr.offset(1), r.len() - 1);
            ptr::write(first_ptr, tmp);
            return;"""),
("m_prange_mu","pointer.rs","""            let tmp = ptr::read(last_ptr);
            ptr::copy(first_ptr,
                      first_ptr.offset(1),
                      r.len() - 1);
            ptr::copy_nonoverlapping(&tmp, first_ptr, 1);
            mem::forget(tmp);""","""            let mut tmp = mem::MaybeUninit::<T>::uninit();
            ptr::copy_nonoverlapping(last_ptr, tmp.as_mut_ptr(), 1);
            ptr::copy(first_ptr,
                      first_ptr.offset(1),
                      r.len() - 1);
            ptr::copy_nonoverlapping(tmp.as_ptr(), first_ptr, 1);"""),
]

R += [
("n_forward_by","container.rs","""        let i = index.index.saturating_add(offset);
        if i < self.len() {
            index.index = i;
            true
        } else { false }""","""        let left = self.len() - index.index;
        if offset >= left {
            return false;
        }
        index.index += offset;
        true"""),
("n_forward_by_chk","container.rs","""        let i = index.index.saturating_add(offset);
        if i < self.len() {
            index.index = i;
            true
        } else { false }""","""        match index.index.checked_add(offset) {
            Some(i) if i < self.len() => {
                index.index = i;
                true
            }
            _ => false,
        }"""),
("n_csplit_before","container.rs","""            (Range::from(0, index.index), Range::from_any(index.index, self.len()))""","""            let (mid, len) = (index.integer(), self.len());
            let lower = Range::from(0, mid);
            let upper = Range::from_any(mid, len);
            (lower, upper)"""),
("n_around_of","container.rs","""        unsafe {
            (Range::from(0, r.start), Range::from(r.end, self.len()))
        }""","""        let whole = self.range();
        unsafe {
            (Range::from(whole.start, r.start), Range::from(r.end, whole.end))
        }"""),
("n_subdivide","indexing.rs","""            Subdivide {
                fs: FracStep::new(self.start, self.end, n),
                range: Range::from(self.start, self.end),
            }""","""            let Range { start, end, .. } = *self;
            let fs = FracStep::new(start, end, n);
            Subdivide { fs, range: Range::from(start, end) }"""),
("n_advance_guard","indexing.rs","""        let mut next = *self;
        next.start += 1;
        if next.start < next.end {
            Ok(next)
        } else {
            Err(index_error())
        }""","""        if self.end - self.start <= 1 {
            return Err(index_error());
        }
        let mut next = *self;
        next.start += 1;
        Ok(next)"""),
("n_lt_cmp","indexing.rs","""    fn lt(&self, rhs: &Index<'id, Q>) -> bool {
        self.index < rhs.index""","""    fn lt(&self, rhs: &Index<'id, Q>) -> bool {
        !(self.index >= rhs.index)"""),
("n_cmp_ifs","indexing.rs","""    fn cmp(&self, rhs: &Self) -> Ordering {
        self.index.cmp(&rhs.index)""","""    fn cmp(&self, rhs: &Self) -> Ordering {
        if self.index < rhs.index {
            Ordering::Less
        } else if self.index == rhs.index {
            Ordering::Equal
        } else {
            Ordering::Greater
        }"""),
("n_hash_ufcs","indexing.rs","""    fn hash<H: Hasher>(&self, h: &mut H) {
        self.index.hash(h)""","""    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&self.index, h);"""),
("n_len_ends","indexing.rs","""    pub fn len(&self) -> usize { self.end - self.start }""","""    pub fn len(&self) -> usize {
        let Range { start, end, .. } = *self;
        end - start
    }"""),
("n_dot_loop","algorithms.rs","""    xs.iter().zip(ys).map(|(x, y)| x * y).sum()""","""    let mut sum = 0;
    for (&x, &y) in xs.iter().zip(ys.iter()) {
        sum += x * y;
    }
    sum"""),
("n_dot_prange_names","algorithms.rs","""            let mut sum = 0;
            zip(v.pointer_range(), &v,
                u.pointer_range(), &u,
                |&x, &y| sum += x * y);
            sum""","""            let mut total = 0;
            let (r1, r2) = (v.pointer_range(), u.pointer_range());
            zip(r1, &v, r2, &u, |x, y| total += *x * *y);
            total"""),
("n_copy_idx","algorithms.rs","""    for (&x, y) in xs.iter().zip(ys) {
        *y = x;
    }""","""    for (y, x) in ys.iter_mut().zip(xs) {
        *y = *x;
    }"""),
("n_copy_min","algorithms.rs","""    for (&x, y) in xs.iter().zip(ys) {
        *y = x;
    }""","""    let n = if xs.len() < ys.len() { xs.len() } else { ys.len() };
    for i in 0..n {
        ys[i] = xs[i];
    }"""),
("n_copyp_swapzip","algorithms.rs","""            zip(v.pointer_range(), &v,
                u.pointer_range(), &mut u,
                |&x, y| *y = x);""","""            let dst = u.pointer_range();
            zip(v.pointer_range(), &v, dst, &mut u, |x, y| { *y = *x; });"""),
("n_lower_match","algorithms.rs","""            let up_to = v.pointer_range_of(..i);
            let lb = lower_bound_prange_(up_to, &v, |x| less_than(x, &v[i]));
            // FIXME: There's a less than check here (`lb < i.after()`).
            if let Ok(lb_range) = v.nonempty_range(lb, i.after()) {
                v.rotate1_prange(lb_range);
            }""","""            let lb = lower_bound_prange_(v.pointer_range_of(..i), &v, |x| less_than(x, &v[i]));
            let after = i.after();
            match v.nonempty_range(lb, after) {
                Ok(r) => v.rotate1_prange(r),
                Err(_) => continue,
            }"""),
("n_pi_while","algorithms.rs","""        for i in v.pointer_range() {
            let jtail = v.scan_tail_(i, |j_elt| less_than(&v[i], j_elt));
            v.rotate1_prange(jtail);
        }""","""        let mut it = v.pointer_range().into_iter();
        while let Some(cur) = it.next() {
            let tail = v.scan_tail_(cur, |e| less_than(&v[cur], e));
            v.rotate1_prange(tail);
        }"""),
("n_bsp_map","algorithms.rs","""        match binary_search_by_prange_(v.pointer_range(), &v, compare) {
            Ok(p) => Ok(v.distance_to(p)),
            Err(p) => Err(v.distance_to(p)),
        }""","""        let found = binary_search_by_prange_(v.pointer_range(), &v, compare);
        found.map(|p| v.distance_to(p)).map_err(|p| v.distance_to(p))"""),
("n_bsps_while","algorithms.rs","""    let mut range = range.no_proof();
    loop {
        let (a, b) = range.split_in_half();
        if let Ok(b_) = b.nonempty() {
            let mid = b_.first();
            match compare(&v[mid]) {
                Ordering::Equal => return Ok(mid),
                Ordering::Greater => range = a,
                Ordering::Less => range = b_.tail(),
            }
        } else {
            break;
        }
    }
    Err(range.first())
}

#[test]""","""    let mut range = range.no_proof();
    loop {
        let (left, right) = range.split_in_half();
        let right = match right.nonempty() {
            Ok(r) => r,
            Err(_) => return Err(range.first()),
        };
        let mid = right.first();
        let ord = compare(&v[mid]);
        if ord == Ordering::Equal {
            return Ok(mid);
        }
        range = if ord == Ordering::Greater { left } else { right.tail() };
    }
}

#[test]"""),
("n_lbp_neg","algorithms.rs","""            if v[b.first()] < *elt {
                range = b.tail();
            } else {
                range = a;
            }
        }
        v.distance_to(range.first())""","""            let mid = b.first();
            range = if v[mid] < *elt { b.tail() } else { a };
        }
        let found = range.first();
        v.distance_to(found)"""),
("n_lbps_closure","algorithms.rs","""        let range = v.pointer_slice();
        v.distance_to(lower_bound_pslice_(range, &v, f))""","""        let pos = lower_bound_pslice_(v.pointer_slice(), &v, f);
        v.distance_to(pos)"""),
("n_raw_slice_len","algorithms.rs","""            let step = count / 2;
            let it = start.offset(step as isize);
            if *it < *elt {
                start = it.offset(1);
                count -= step + 1;
            } else {
                count = step;
            }""","""            let half = count / 2;
            let mid = start.add(half);
            if !(*mid < *elt) {
                count = half;
                continue;
            }
            start = mid.add(1);
            count = count - half - 1;"""),
("n_raw_while_zero","algorithms.rs","""        while count > 0 {
            let step = count / 2;""","""        while count != 0 {
            let step = count >> 1;"""),
("n_ptrd_vars","algorithms.rs","""    (to as usize - from as usize) / mem::size_of::<T>()""","""    let bytes = (to as usize) - (from as usize);
    let size = mem::size_of::<T>();
    bytes / size"""),
("n_inc_add","pointer_ext.rs","""        let current = *self;
        *self = self.offset(1);
        current""","""        let old = *self;
        self.inc();
        old"""),
("n_predec","pointer_ext.rs","""        *self = self.offset(-1);
        *self""","""        let prev = self.offset(-1);
        *self = prev;
        prev"""),
("n_endmut_offset","container_traits.rs","""            self.begin_mut().add(self.len())""","""            let n = self.len() as isize;
            self.as_mut_ptr().offset(n)"""),
("n_end_offset","container_traits.rs","""            self.begin().add(self.len())""","""            self.begin().offset(self.len() as isize)"""),
("n_push_vec","container_traits.rs","""            let i = self.len();
            self.push(item);
            i""","""            self.push(item);
            self.len() - 1"""),
("n_insert_ufcs","container_traits.rs","""            self.insert(index, item)
        }""","""            Vec::insert(self, index, item);
        }"""),
("n_pslice_inline","pointer.rs","""            let start = self.begin();
            PSlice::new(start, self.len())""","""            let len = self.len();
            PSlice::new(self.begin(), len)"""),
("n_deref_cast","pointer.rs","""        &mut *(ptr as *mut T)
    }""","""        let raw = ptr as *mut T;
        &mut *raw
    }"""),
]

R += [
("iter_size_hint", "indexing.rs", """impl<'id> DoubleEndedIterator for RangeIter<'id> {""", """impl<'id> ExactSizeIterator for RangeIter<'id> {
    fn len(&self) -> usize { self.end - self.start }
}

impl<'id> std::iter::FusedIterator for RangeIter<'id> { }

impl<'id> DoubleEndedIterator for RangeIter<'id> {"""),
("iter_nth_new", "indexing.rs", """                Some(Index::new(index))
            }
        } else {
            None
        }
    }
}
""", """                Some(Index::new(index))
            }
        } else {
            None
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.end - self.start;
        (n, Some(n))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.end - self.start {
            self.start = self.end;
            return None;
        }
        self.start += n;
        self.next()
    }

    fn fold<B, F>(mut self, init: B, mut f: F) -> B
        where F: FnMut(B, Self::Item) -> B
    {
        let mut acc = init;
        while let Some(i) = self.next() {
            acc = f(acc, i);
        }
        acc
    }
}
"""),
("piter_nth_new", "pointer.rs", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.len() {
            self.0.start = self.0.end;
            return None;
        }
        unsafe { self.0.start = self.0.start.offset(n as isize); }
        self.next()
    }

    fn count(self) -> usize { self.len() }
"""),
("subdiv_count_new", "indexing.rs", """impl<'id> DoubleEndedIterator for RangeIter<'id> {""", """impl<'id> RangeIter<'id> {
    fn remaining(&self) -> impl Fn() -> usize {
        let n = self.end - self.start;
        move || n
    }
    /// Visit what is left
    #[doc(hidden)]
    pub fn drain_with<F>(&mut self, mut f: F) where F: FnMut(usize, Index<'id>) {
        let left = self.remaining();
        for k in 0..left() {
            if let Some(i) = self.next() { f(k, i) }
        }
    }
}

impl<'id> DoubleEndedIterator for RangeIter<'id> {"""),
("piter_eq_ne", "pointer.rs", """        self.start == rhs.start && self.end == rhs.end
    }
""", """        !self.ne(rhs)
    }

    fn ne(&self, rhs: &PRange<'id, T, Q>) -> bool {
        self.start != rhs.start || self.end != rhs.end
    }
"""),
("pslice_eq_match", "pointer.rs", "        self.start == rhs.start && self.len == rhs.len\n", """        match (self.start, self.len) {
            (p, n) => p == rhs.start && n == rhs.len,
        }
"""),
]
R += [
("add_iter_struct", "indexing.rs", """impl<'id> DoubleEndedIterator for RangeIter<'id> {""", """/// Indices in steps
#[derive(Debug, Clone)]
struct Steps<'id> { r: Range<'id>, by: usize }
impl<'id> Iterator for Steps<'id> {
    type Item = Index<'id>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.r.start >= self.r.end { return None }
        let i = self.r.start;
        self.r.start = cmp::min(self.r.end, i.saturating_add(self.by));
        Some(unsafe { Index::new(i) })
    }
}

impl<'id> DoubleEndedIterator for RangeIter<'id> {"""),
("add_convs", "indexing.rs", """impl<'id> DoubleEndedIterator for RangeIter<'id> {""", """impl<'id, P> From<Range<'id, P>> for ::std::ops::Range<usize> {
    fn from(r: Range<'id, P>) -> Self { r.start..r.end }
}
impl<'id, P> PartialEq<usize> for Index<'id, P> {
    fn eq(&self, rhs: &usize) -> bool { self.index == *rhs }
}
impl<'id> Default for RangeIter<'id> {
    fn default() -> Self { RangeIter { id: Id::default(), start: 0, end: 0 } }
}

impl<'id> DoubleEndedIterator for RangeIter<'id> {"""),
("add_trait", "indexing.rs", """impl<'id> DoubleEndedIterator for RangeIter<'id> {""", """trait Span {
    type Len: Into<usize>;
    const ZERO: usize = 0;
    fn span(&self) -> Self::Len;
    fn is_point(&self) -> bool { self.span().into() == Self::ZERO }
}
impl<'id> Span for RangeIter<'id> {
    type Len = usize;
    fn span(&self) -> usize { self.end - self.start }
}
impl<'a, S: Span + ?Sized> Span for &'a S {
    type Len = S::Len;
    fn span(&self) -> S::Len { (**self).span() }
}

impl<'id> DoubleEndedIterator for RangeIter<'id> {"""),
("add_misc", "indexing.rs", """impl<'id> DoubleEndedIterator for RangeIter<'id> {""", """const LIMIT: usize = 1 << 10;
static NAMES: [&str; 2] = ["front", "back"];
type Pair = (usize, usize);
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Side { Front, Back }
impl Side {
    fn name(self) -> &'static str { match self { Side::Front => NAMES[0], Side::Back => NAMES[1] } }
}
macro_rules! pair { ($a:expr, $b:expr) => { ($a, $b) } }
fn ends(r: &Range<'_>) -> Pair { pair!(r.start, r.end) }
#[inline(always)]
fn apply<A, B>(a: A, f: impl FnOnce(A) -> B) -> B { f(a) }
mod detail {
    pub(super) fn cap(n: usize) -> usize { if n > super::LIMIT { super::LIMIT } else { n } }
    pub(super) unsafe fn read(p: *const u8) -> u8 { *p }
}
union Bits { a: u32, b: f32 }

impl<'id> DoubleEndedIterator for RangeIter<'id> {"""),
]
R += [
("trait_default_len", "container_traits.rs", "    fn base_len(&self) -> usize;\n", """    fn base_len(&self) -> usize;
    fn base_is_empty(&self) -> bool { self.base_len() == 0 }
    fn base_last(&self) -> Option<usize> { self.base_len().checked_sub(1) }
"""),
("array_storage", "container_traits.rs", "unsafe impl<T> Trustworthy for [T] {", """unsafe impl<T, const N: usize> Trustworthy for [T; N] {
    type Item = T;
    fn base_len(&self) -> usize { N }
}
unsafe impl<T, const N: usize> Contiguous for [T; N] {
    fn begin(&self) -> *const Self::Item { self.as_ptr() }
    fn end(&self) -> *const Self::Item { unsafe { self.begin().offset(N as isize) } }
    fn as_slice(&self) -> &[Self::Item] { self }
}
unsafe impl<T, const N: usize> GetUnchecked for [T; N] {
    unsafe fn xget_unchecked(&self, i: usize) -> &Self::Item { self.get_unchecked(i) }
}
unsafe impl<T, const N: usize> FixedLength for [T; N] { }

unsafe impl<T> Trustworthy for [T] {"""),
("box_storage", "container_traits.rs", "unsafe impl<T> Trustworthy for [T] {", """#[cfg(feature = "use_std")]
unsafe impl<C: ?Sized> Trustworthy for Box<C>
    where C: Trustworthy
{
    type Item = C::Item;
    fn base_len(&self) -> usize { (**self).base_len() }
}

unsafe impl<T> Trustworthy for [T] {"""),
("guard_algorithms", "algorithms.rs", "fn block_swap2<T>(a: &mut [T], b: &mut [T]) {", """struct Restore<'a, T: 'a> { slot: &'a mut T, with: Option<T> }
impl<'a, T> Drop for Restore<'a, T> {
    fn drop(&mut self) { if let Some(v) = self.with.take() { *self.slot = v; } }
}
#[allow(dead_code)]
fn replace_during<T, R, F: FnOnce(&mut T) -> R>(slot: &mut T, with: T, f: F) -> R {
    let old = ::std::mem::replace(slot, with);
    let g = Restore { slot: slot, with: Some(old) };
    f(&mut *g.slot)
}
fn block_swap2<T>(a: &mut [T], b: &mut [T]) {"""),
("generic_helper_alg", "algorithms.rs", "fn block_swap2<T>(a: &mut [T], b: &mut [T]) {", """#[allow(dead_code)]
pub(crate) fn is_sorted_by<T, F>(v: &[T], mut le: F) -> bool where F: FnMut(&T, &T) -> bool {
    v.windows(2).all(|w| le(&w[0], &w[1]))
}
#[allow(dead_code)]
const fn log2(n: usize) -> u32 { (::std::mem::size_of::<usize>() as u32 * 8 - 1) - (n | 1).leading_zeros() }
#[derive(Default, Clone)]
#[allow(dead_code)]
struct Stats { swaps: usize, compares: usize, name: Option<String>, seen: Vec<(usize, Box<[u8]>)> }
#[allow(dead_code)]
impl Stats {
    fn new() -> Self { Self { swaps: 0, ..Default::default() } }
    fn total(&self) -> usize { self.swaps.wrapping_add(self.compares) }
    fn each<'a>(&'a self) -> impl Iterator<Item = usize> + 'a { self.seen.iter().map(|x| x.0) }
}
fn block_swap2<T>(a: &mut [T], b: &mut [T]) {"""),
]
R += [
("n_lb_while_len", "algorithms.rs", """        let mut range = v.range();
        while let Ok(range_) = range.nonempty() {
            let (a, b) = range_.split_in_half();
            if v[b.first()] < *elt {
                range = b.tail();
            } else {
                range = a;
            }
        }
        range.start()""", """        let mut remaining = v.range();
        loop {
            let current = match remaining.nonempty() {
                Ok(current) => current,
                Err(_) => break,
            };
            let (before, after) = current.split_in_half();
            let probe = after.first();
            let goes_right = v[probe] < *elt;
            remaining = if goes_right { after.tail() } else { before };
        }
        remaining.start()"""),
("n_bs_iflet", "algorithms.rs", """            let (a, b) = range.split_in_half();
            if let Ok(b_) = b.nonempty() {
                let mid = b_.first();
                match f(&v[mid]) {
                    Ordering::Equal => return Ok(mid.integer()),
                    Ordering::Greater => range = a,
                    Ordering::Less => range = b_.tail(),
                }
            } else {
                break;
            }
        }
        Err(range.start())""", """            let (lower, upper) = range.split_in_half();
            let upper = match upper.nonempty() {
                Ok(upper) => upper,
                Err(_) => return Err(range.start()),
            };
            let mid = upper.first();
            let order = f(&v[mid]);
            if order == Ordering::Equal {
                return Ok(mid.integer());
            }
            range = if order == Ordering::Greater { lower } else { upper.tail() };
        }"""),
("n_bsp_match", "algorithms.rs", """    let mut range = range.no_proof();
    loop {
        let (a, b) = range.split_in_half();
        if let Ok(b_) = b.nonempty() {
            let mid = b_.first();
            match compare(&v[mid]) {
                Ordering::Equal => return Ok(mid),
                Ordering::Greater => range = a,
                Ordering::Less => range = b_.tail(),
            }
        } else {
            break;
        }
    }
    Err(range.first())""", """    let mut rest = range.no_proof();
    while let Ok(upper) = rest.split_in_half().1.nonempty() {
        let mid = upper.first();
        rest = match compare(&v[mid]) {
            Ordering::Less => upper.tail(),
            Ordering::Greater => rest.split_in_half().0,
            Ordering::Equal => return Ok(mid),
        };
    }
    Err(rest.first())"""),
("n_heap_match", "algorithms.rs", """            while let Ok(mut child) = v.vet(pos.integer() * 2 + 1) {
                // pick the smaller of the two children
                let mut right = child;
                if v.forward(&mut right) && v[child] > v[right] {
                    child = right;
                }
                // sift down is done if we are already in order
                if v[pos] <= v[child] {
                    break;
                }""", """            loop {
                let left_child = match v.vet(2 * pos.integer() + 1) {
                    Ok(c) => c,
                    Err(_) => break,
                };
                let mut right = left_child;
                let has_right = v.forward(&mut right);
                let child = if has_right && v[left_child] > v[right] {
                    right
                } else {
                    left_child
                };
                if v[pos] <= v[child] {
                    break;
                }"""),
("n_heap_backloop", "algorithms.rs", """        for i in left.into_iter().rev() {
            // Sift down element at `i`.""", """        let mut todo = left.into_iter();
        while let Some(i) = todo.next_back() {
            // Sift down element at `i`."""),
("n_mi_noearly", "algorithms.rs", """            let right_end = data.len();
            if right_end - left_end == 0 {
                return;
            }
""", """            if left_end == data.len() {
                return;
            }
"""),
("n_mi_err_return", "algorithms.rs", """    if left_end > data.len() || left_end > buffer.len() {
        Err("merge_internal: data or buffer too short")?;
    }
    scope(data, move |mut data| {""", """    let limit = cmp::min(data.len(), buffer.len());
    if left_end > limit {
        return Err(AlgorithmError::from("merge_internal: data or buffer too short"));
    }
    scope(data, move |mut data| {"""),
("n_block_zip", "algorithms.rs", """    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""", """    let mut i = 0;
    while i != count {
        swap(&mut a[i], &mut b[i]);
        i += 1;
    }"""),
("n_block_sws", "algorithms.rs", """    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""", """    a.swap_with_slice(b);"""),
("n_qsr_noreturn", "algorithms.rs", """            // Fall back to insertion sort for short sections
            if range.len() <= QS_INSERTION_SORT_THRESH {
                insertion_sort_ranges(&mut v[..], |x, y| x < y);
                return;
            }

            let (l, m, r) = (range.first(), range.upper_middle(), range.last());

            // simple pivot
            // let pivot = m;
            //
            // smart pivot -- use median of three
            let mut pivot = if v[l] <= v[m] && v[m] <= v[r] {
                m
            } else if v[m] <= v[l] && v[l] <= v[r] {
                l
            } else {
                r
            };

            // partition
            let mut scan = range;
            v.swap(scan.first(), pivot);
            pivot = scan.first();""", """            if range.len() < QS_INSERTION_SORT_THRESH + 1 {
                insertion_sort_ranges(&mut v[..], |x, y| y > x);
                return;
            }
            let l = range.first();
            let m = range.upper_middle();
            let r = range.last();
            let chosen = match (v[l] <= v[m] && v[m] <= v[r], v[m] <= v[l] && v[l] <= v[r]) {
                (true, _) => m,
                (false, true) => l,
                (false, false) => r,
            };
            let mut scan = range;
            let pivot = scan.first();
            v.swap(pivot, chosen);"""),
("n_qsb_mem", "algorithms.rs", """                j -= 1;
                if i >= j { break 'main; }""", """                j -= 1;
                if j <= i {
                    break 'main;
                }"""),
("n_qsb_split", "algorithms.rs", """    let (a, b) = v.split_at_mut(i);
    quicksort_bounds(a);
    quicksort_bounds(b);""", """    quicksort_bounds(&mut v[..i]);
    quicksort_bounds(&mut v[i..]);"""),
("n_isr_while", "algorithms.rs", """    for i in 1..len {
        // j satisfies: 0 <= j <= i;
        let mut j = i;""", """    let mut next = 1;
    while next < len {
        let i = next;
        next += 1;
        // j satisfies: 0 <= j <= i;
        let mut j = i;"""),
("n_isr_eq_continue", "algorithms.rs", """            if i != j {
                let tmp = ptr::read(read_ptr);
                ptr::copy(&*buf_v.offset(j),
                          buf_v.offset(j + 1),
                          (i - j) as usize);
                ptr::copy_nonoverlapping(&tmp, buf_v.offset(j), 1);
                mem::forget(tmp);
            }""", """            if i == j {
                continue;
            }
            let tmp = mem::ManuallyDrop::new(ptr::read(read_ptr));
            let hole = buf_v.offset(j);
            ptr::copy(hole, hole.offset(1), (i - j) as usize);
            ptr::copy_nonoverlapping(&*tmp, hole, 1);"""),
("n_is2_twinfirst", "algorithms.rs", """            v.rotate1_up(jtail);
            u.rotate1_up(jtail);""", """            u.rotate1_up(jtail);
            v.rotate1_up(jtail);"""),
("n_isi_range", "algorithms.rs", """        for i in v.range() {
            let jtail = v.scan_from_rev(i, |j_elt| less_than(&v[i], j_elt));
            v.rotate1_up(jtail);
        }
    });
}

/// Sort two""", """        let all = v.range();
        let mut indices = all.into_iter();
        while let Some(i) = indices.next() {
            let tail = {
                let elt = &v[i];
                v.scan_from_rev(i, |other| less_than(elt, other))
            };
            v.rotate1_up(tail);
        }
    });
}

/// Sort two"""),
("n_lbraw_ptr", "algorithms.rs", """            if *it < *elt {
                start = it.offset(1);
                count -= step + 1;
            } else {
                count = step;
            }""", """            let less = *it < *elt;
            count = if less { count - step - 1 } else { step };
            if less {
                start = it.offset(1);
            }"""),
("n_lbraw_add", "algorithms.rs", """            let it = start.offset(step as isize);
            if *it < *elt {
                start = it.offset(1);""", """            let it = start.add(step);
            if *it < *elt {
                start = it.add(1);"""),
("n_dot_fold", "algorithms.rs", "    xs.iter().zip(ys).map(|(x, y)| x * y).sum()", "    xs.iter().zip(ys.iter()).fold(0, |acc, (x, y)| acc + x * y)"),
]
R += [
("ren_heap", "algorithms.rs", """            let mut pos = i;
            while let Ok(mut child) = v.vet(pos.integer() * 2 + 1) {
                // pick the smaller of the two children
                let mut right = child;
                if v.forward(&mut right) && v[child] > v[right] {
                    child = right;
                }
                // sift down is done if we are already in order
                if v[pos] <= v[child] {
                    break;
                }
                //puts!("mov {:?} => {:?} (value={:?})", pos, child, &v[pos]);
                v.swap(pos, child);
                pos = child;
            }""", """            let mut parent = i;
            while let Ok(mut smallest) = v.vet(parent.integer() * 2 + 1) {
                let mut sibling = smallest;
                if v.forward(&mut sibling) && v[smallest] > v[sibling] {
                    smallest = sibling;
                }
                if v[parent] <= v[smallest] {
                    break;
                }
                v.swap(parent, smallest);
                parent = smallest;
            }"""),
("ren_lb_raw_range", "algorithms.rs", """    let mut range = range.no_proof();
    while let Ok(range_) = range.nonempty() {
        let (a, b) = range_.split_in_half();
        if less_than(&v[b.first()]) {
            range = b.tail();
        } else {
            range = a;
        }
    }
    range.first()""", """    let mut window = range.no_proof();
    while let Ok(nonempty) = window.nonempty() {
        let (lower, upper) = nonempty.split_in_half();
        window = if less_than(&v[upper.first()]) { upper.tail() } else { lower };
    }
    window.first()"""),
("ren_block", "algorithms.rs", """    let a = &mut a[..count];
    let b = &mut b[..count];
    for i in 0..count {
        swap(&mut a[i], &mut b[i]);
    }""", """    let left = &mut a[..count];
    let right = &mut b[..count];
    for k in 0..count {
        swap(&mut left[k], &mut right[k]);
    }"""),
]
def main():
    import check as C
    want = sys.argv[1:]
    todo = [r for r in R if not want or r[0] in want]
    pm = {p: [C.glob_re(x) for x in v] for p, v in C.props_map().items()}
    base = None
    def one(r):
        d = tempfile.mkdtemp(prefix="rf."); out = []
        try:
            src = os.path.join(d, "src"); shutil.copytree("/repo/src", src)
            p = os.path.join(src, r[1]); t = open(p).read()
            if r[2] not in t: return "%s: EDIT DOES NOT APPLY" % r[0]
            open(p, "w").write(t.replace(r[2], r[3], 1))
            q = subprocess.run(["rustc", "--edition", "2018", "--cap-lints", "allow", "--crate-type", "rlib", "--emit=metadata", "--crate-name", "indexing"] + C.FEAT + ["-o", d + "/x.rmeta", src + "/lib.rs"], capture_output=True, text=True)
            if q.returncode: return "%s: DOES NOT COMPILE %s" % (r[0], q.stderr[:800])
            V = C.Verus(d, "v"); 
            C_SRC = src
            import extract as X
            V.extract = lambda: ext(V, src)
            V.run(800)
            nc = set(open(os.path.join(os.path.dirname(HERE), "vx", "nocontract.txt")).read().split("\n"))
            helpers = [k.split("::")[-1] for k in V.ex.nocontract if k not in nc]
            pr = lambda ks: sorted(p for p, l in pm.items() if any(x.match(k) for k in ks for x in l))
            import re
            bad = []; und = list(V.undecided)
            for k in V.failed:
                if V.ex.status.get(k) != "body" and not k.startswith("ghost:"): continue
                txt = C.fn_text(V, k)
                if V.ex.bare.get(k) or any(re.search(r"\b%s\b" % re.escape(h), txt) for h in helpers): und.append(k)
                else: bad.append(k)
            lost = list(getattr(V.ex, "lostset", {})) + list(V.demoted)
            return "%-22s ok=%s alarm=%s %s | undecided=%s lost=%s | helpers=%s %s" % (r[0], V.ok, bad, pr(bad), und, lost, helpers, V.note)
        finally: shutil.rmtree(d, ignore_errors=True)
    def ext(V, src):
        import glob
        import extract as X
        cs, bl = X.load_contracts(sorted(glob.glob(os.path.join(os.path.dirname(HERE), "vx", "*.vx"))))
        ex = X.Extractor(src, cs, bl, demote=set(V.demoted), canary=False, leafnc=True, omit=V.omit)
        txt = ex.run(); p = os.path.join(V.tmp, V.name + ".rs"); open(p, "w").write(txt)
        V.ex, V.path, V.lines, V.contracts = ex, p, txt.split("\n"), cs
        return p
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for s in ex.map(one, todo): print(s, flush=True)
main()
