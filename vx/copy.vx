## Lock-step copying (C20)
@@ fn copy_prange
@spec
    requires old(ys)@.len() <= vx::maxlen(), xs@.len() <= vx::maxlen(), vxp::sz::<T>() > 0,
    ensures final(ys)@ == vx_over(old(ys)@, xs@),
@body
    let ghost vx_y0 = ys@; let ghost vx_x0 = xs@; let ghost vx_z = final(ys)@;
@closureproof 1
    proof { assert forall|tr: Seq<(&T, &mut T)>| #[trigger] crate::pointer::vx_called(vx_f, tr) implies (forall|k: int| 0 <= k < tr.len() ==> *final((#[trigger] tr[k]).1) == *tr[k].0) by {
        assert forall|k: int| 0 <= k < tr.len() implies *final((#[trigger] tr[k]).1) == *tr[k].0 by { assert(vx_f.ensures(tr[k], ())); assert(tr[k] == (tr[k].0, tr[k].1)); } } }
@closure 1
&T; &mut T; r: ()
    ensures *final($2) == $1
@after | & x , y | * y = x ) ;
    proof { assert(u.cv() =~= vx_over(vx_y0, vx_x0)); }
@@ inline algorithms zip_dot_i32_prange pointer zip
r1 = PointerRange
r2 = PointerRange
C1 = <&Container<'_, &[i32]> as ContainerRef<'_>>
C2 = <&Container<'_, &[i32]> as ContainerRef<'_>>
@@ iterzip algorithms copy for
mut = mut 
@@ iterzip algorithms zip_dot_i32 sum
sum = i32
@@ mod algorithms
use crate::pointer::*; use crate::pointer_ext::PointerExt; use std::cmp::min;
@@ modend algorithms
/// the dot product of the first n pairs
pub open spec fn vx_dot(x: Seq<i32>, y: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { vx_dot(x, y, n - 1) + x[n - 1] * y[n - 1] } }
/// no product and no partial sum overflows
pub open spec fn vx_dotok(x: Seq<i32>, y: Seq<i32>, n: int) -> bool {
    (forall|k: int| 0 <= k < n ==> i32::MIN <= #[trigger] (x[k] * y[k]) <= i32::MAX) && (forall|k: int| 0 <= k <= n ==> i32::MIN <= #[trigger] vx_dot(x, y, k) <= i32::MAX)
}
@@ fn zip_dot_i32
@spec
    requires vx_dotok(xs@, ys@, vx::min(xs@.len() as int, ys@.len() as int)),
    ensures ret == vx_dot(xs@, ys@, vx::min(xs@.len() as int, ys@.len() as int)),
@loop 1 any
    invariant vx_zn == vx::min(xs@.len() as int, ys@.len() as int), vx_zi <= vx_zn, vx_za@ == xs@, vx_zb@ == ys@, vx_zs == vx_dot(xs@, ys@, vx_zi as int), vx_dotok(xs@, ys@, vx_zn as int),
    ensures vx_zi == vx_zn,
    decreases vx_zn - vx_zi,
@loopbody 1
    proof { let k = vx_zi as int; assert(i32::MIN <= xs@[k] * ys@[k] <= i32::MAX); assert(vx_dot(xs@, ys@, k + 1) == vx_dot(xs@, ys@, k) + xs@[k] * ys@[k]); assert(i32::MIN <= vx_dot(xs@, ys@, k + 1) <= i32::MAX); }
@@ fn copy
@spec
    ensures final(ys)@ == vx_over(old(ys)@, xs@),
@body
    let ghost vx_y0 = ys@; let ghost vx_x0 = xs@;
@loop 1 any
    invariant vx_zn == vx::min(vx_x0.len() as int, vx_y0.len() as int), vx_zi <= vx_zn, vx_za@ == vx_x0, vx_zb@.len() == vx_y0.len(),
        forall|k: int| 0 <= k < vx_zi ==> #[trigger] vx_zb@[k] == vx_x0[k], forall|k: int| vx_zi <= k < vx_y0.len() ==> #[trigger] vx_zb@[k] == vx_y0[k],
    ensures vx_zi == vx_zn,
    decreases vx_zn - vx_zi,

@@ fn zip_dot_i32_prange
@spec
    requires xs@.len() <= vx::maxlen(), ys@.len() <= vx::maxlen(), vx_dotok(xs@, ys@, vx::min(xs@.len() as int, ys@.len() as int)),
    ensures ret == vx_dot(xs@, ys@, vx::min(xs@.len() as int, ys@.len() as int)),
@body
    let ghost mut vx_k: int = 0;
@loop 1 any
    invariant len == vx::min(xs@.len() as int, ys@.len() as int), vxp::sz::<i32>() > 0, vxp::fits::<i32>(len as int), vx_dotok(xs@, ys@, len as int), v.cv() == xs@, u.cv() == ys@,
        0 <= vx_k <= len, ptr1.vx_at(vx_k), ptr2.vx_at(vx_k), vxp::at::<i32>(end@.addr, len as int), sum == vx_dot(xs@, ys@, vx_k), *vx_in_c1 == v, *vx_in_c2 == u,
    ensures vx_k == len,
    decreases len - vx_k,
@after let vx_args = ( ) ;
    proof {
        let k = vx_k;
        assert(crate::pointer::vx_refs_at::<&Container<'_, &[i32]>>(vx_arg0, k));
        assert(crate::pointer::vx_refs_at::<&Container<'_, &[i32]>>(vx_arg1, k));
        let s0 = seq![vx_arg0]; let s1 = seq![vx_arg1];
        crate::pointer::vx_settle(vx_in_c1, k, s0); crate::pointer::vx_settle(vx_in_c2, k, s1);
        assert(*s0[0] == xs@[k] && *s1[0] == ys@[k]);
        assert(i32::MIN <= xs@[k] * ys@[k] <= i32::MAX); assert(vx_dot(xs@, ys@, k + 1) == vx_dot(xs@, ys@, k) + xs@[k] * ys@[k]); assert(i32::MIN <= vx_dot(xs@, ys@, k + 1) <= i32::MAX);
    }
@loopend 1
    proof { vx_k = vx_k + 1; }
