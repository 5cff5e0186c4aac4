## Optional specifications of library functions: each is emitted only if the crate names the function.
@@ ifuse overflowing_sub
pub assume_specification [ usize::overflowing_sub ] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a < b), r.0 == (if a >= b { a - b } else { a - b + usize::MAX + 1 });
@@ ifuse overflowing_add
pub assume_specification [ usize::overflowing_add ] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), r.0 == (if a + b <= usize::MAX { a + b } else { a + b - usize::MAX - 1 });
@@ ifuse abs_diff
pub assume_specification [ usize::abs_diff ] (a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });
@@ ifuse div_ceil
pub assume_specification [ usize::div_ceil ] (a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r == (a + b - 1) / b as int;
@@ ifuse unsigned_abs
pub assume_specification [ isize::unsigned_abs ] (a: isize) -> (r: usize)
    ensures r == (if a >= 0 { a as int } else { -(a as int) });
@@ ifuse then_some
pub assume_specification<T> [ bool::then_some ] (b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });
@@ ifuse then
pub assume_specification<T, F: FnOnce() -> T> [ bool::then ] (b: bool, f: F) -> (r: Option<T>)
    requires b ==> f.requires(())
    ensures b ==> r.is_some() && f.ensures((), r.unwrap()), !b ==> r.is_none();
@@ ifuse or
pub assume_specification<T> [ core::option::Option::<T>::or ] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a.is_some() { a } else { b });
@@ ifuse unwrap_or
pub assume_specification<T, E> [ core::result::Result::<T, E>::unwrap_or ] (a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(t) => t, Err(_) => d });
@@ ifuse filter
pub assume_specification<T, P: FnOnce(&T) -> bool> [ core::option::Option::<T>::filter ] (a: Option<T>, p: P) -> (r: Option<T>)
    requires a.is_some() ==> p.requires((&a.unwrap(),))
    ensures a.is_none() ==> r.is_none(), a.is_some() ==> (r == a && p.ensures((&a.unwrap(),), true)) || (r.is_none() && p.ensures((&a.unwrap(),), false));
@@ ifuse replace
pub assume_specification<T> [ core::mem::replace ] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
@@ ifuse is_lt
pub assume_specification [ core::cmp::Ordering::is_lt ] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a == core::cmp::Ordering::Less);
@@ ifuse is_le
pub assume_specification [ core::cmp::Ordering::is_le ] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a != core::cmp::Ordering::Greater);
@@ ifuse is_gt
pub assume_specification [ core::cmp::Ordering::is_gt ] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a == core::cmp::Ordering::Greater);
@@ ifuse is_ge
pub assume_specification [ core::cmp::Ordering::is_ge ] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a != core::cmp::Ordering::Less);
@@ ifuse is_eq
pub assume_specification [ core::cmp::Ordering::is_eq ] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a == core::cmp::Ordering::Equal);
@@ ifuse is_ne
pub assume_specification [ core::cmp::Ordering::is_ne ] (a: core::cmp::Ordering) -> (r: bool)
    ensures r == (a != core::cmp::Ordering::Equal);
@@ ifuse reverse
pub assume_specification [ core::cmp::Ordering::reverse ] (a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less });
@@ ifuse capacity
pub assume_specification<T, A: core::alloc::Allocator> [ Vec::<T, A>::capacity ] (v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
@@ ifuse as_ptr
pub assume_specification<T, A: core::alloc::Allocator> [ Vec::<T, A>::as_ptr ] (v: &Vec<T, A>) -> (r: *const T)
    ensures at::<T>(r@.addr, 0), fits::<T>(v@.len() as int);
@@ ifuse as_mut_ptr
pub assume_specification<T, A: core::alloc::Allocator> [ Vec::<T, A>::as_mut_ptr ] (v: &mut Vec<T, A>) -> (r: *mut T)
    ensures at::<T>(r@.addr, 0), fits::<T>(old(v)@.len() as int), final(v)@ == old(v)@;
@@ ifuse sub
pub assume_specification<T> [ <*const T>::sub ] (p: *const T, i: usize) -> (r: *const T)
    requires canmove::<T>(p@.addr, -(i as int)),
    ensures r@.addr == p@.addr - i * sz::<T>(), forall|k: int| #[trigger] at::<T>(p@.addr, k) ==> at::<T>(r@.addr, k - i);
pub assume_specification<T> [ <*mut T>::sub ] (p: *mut T, i: usize) -> (r: *mut T)
    requires canmove::<T>(p@.addr, -(i as int)),
    ensures r@.addr == p@.addr - i * sz::<T>(), forall|k: int| #[trigger] at::<T>(p@.addr, k) ==> at::<T>(r@.addr, k - i);
@@ ifuse offset_from
pub assume_specification<T> [ <*const T>::offset_from ] (p: *const T, q: *const T) -> (r: isize)
    requires sz::<T>() > 0, good::<T>(p@.addr), good::<T>(q@.addr),
    ensures r == po::<T>(p@.addr) - po::<T>(q@.addr);
