//! C10: assignment and operators.
use crate::model::*;
use crate::nd;
use core::ops::*;
use mdarray::expr::*;
use mdarray::*;

/// Elements recording the operation and its operands in order.
#[derive(Clone, Copy, PartialEq, Debug)]
struct El(u32);

fn apply2(op: u32, x: u32, y: u32) -> u32 {
    op << 16 | (x & 255) << 8 | (y & 255)
}

/// Operators tried with every kind of operand; all of them are tried with views.
fn few(op: u32) -> bool {
    cfg!(feature = "thorough") || op == 2 || op == 4 || op == 9
}

macro_rules! ops {
    ($($n:literal $trt:ident $f:ident $trta:ident $fa:ident),*) => {
        $(
            impl $trt<El> for El { type Output = El; fn $f(self, y: El) -> El { El(apply2($n, self.0, y.0)) } }
            impl $trt<&El> for El { type Output = El; fn $f(self, y: &El) -> El { El(apply2($n, self.0, y.0)) } }
            impl $trt<El> for &El { type Output = El; fn $f(self, y: El) -> El { El(apply2($n, self.0, y.0)) } }
            impl $trt<&El> for &El { type Output = El; fn $f(self, y: &El) -> El { El(apply2($n, self.0, y.0)) } }
            impl $trta<El> for El { fn $fa(&mut self, y: El) { *self = El(apply2($n, self.0, y.0)) } }
            impl $trta<&El> for El { fn $fa(&mut self, y: &El) { *self = El(apply2($n, self.0, y.0)) } }
        )*

        /// All operators with operands built anew for each.
        macro_rules! all_ops {
            (@full; $a:expr, $b:expr, $check:expr) => { $( $check($trt::$f($a, $b), $n); )* };
            ($a:expr, $b:expr, $check:expr) => { $( if few($n) { $check($trt::$f($a, $b), $n); } )* };
        }
        macro_rules! all_assign {
            (@full; $a:expr, $b:expr, $check:expr) => { $( { let mut a = $a; a.$fa($b); $check(a, $n); } )* };
            ($a:expr, $b:expr, $check:expr) => { $( if few($n) { let mut a = $a; a.$fa($b); $check(a, $n); } )* };
        }
    };
}

ops!(1 Add add AddAssign add_assign, 2 Sub sub SubAssign sub_assign, 3 Mul mul MulAssign mul_assign,
    4 Div div DivAssign div_assign, 5 Rem rem RemAssign rem_assign, 6 BitAnd bitand BitAndAssign bitand_assign,
    7 BitOr bitor BitOrAssign bitor_assign, 8 BitXor bitxor BitXorAssign bitxor_assign, 9 Shl shl ShlAssign shl_assign,
    10 Shr shr ShrAssign shr_assign);

impl Neg for El { type Output = El; fn neg(self) -> El { El(apply2(11, self.0, 1)) } }
impl Neg for &El { type Output = El; fn neg(self) -> El { El(apply2(11, self.0, 1)) } }
impl Not for El { type Output = El; fn not(self) -> El { El(apply2(12, self.0, 2)) } }
impl Not for &El { type Output = El; fn not(self) -> El { El(apply2(12, self.0, 2)) } }

type C2 = (Const<2>,);
type C22 = (Const<2>, Const<2>);

fn any<const N: usize>() -> [El; N] {
    let mut a = [El(0); N];
    for i in 0..N {
        a[i] = El(nd::u8() as u32);
    }
    a
}

fn v<'a, S: Shape>(a: &'a [El], d: &[usize]) -> View<'a, El, S> {
    unsafe { View::new_unchecked(a.as_ptr(), DenseMapping::new(S::from_dims(d))) }
}

fn vs<'a, S: Shape>(a: &'a [El], d: &[usize], s: &[isize]) -> View<'a, El, S, Strided> {
    unsafe { View::new_unchecked(a.as_ptr(), StridedMapping::new(S::from_dims(d), s)) }
}

fn vm<'a, S: Shape>(a: &'a mut [El], d: &[usize]) -> ViewMut<'a, El, S> {
    unsafe { ViewMut::new_unchecked(a.as_mut_ptr(), DenseMapping::new(S::from_dims(d))) }
}

fn vsm<'a, S: Shape>(a: &'a mut [El], d: &[usize], s: &[isize]) -> ViewMut<'a, El, S, Strided> {
    unsafe { ViewMut::new_unchecked(a.as_mut_ptr(), StridedMapping::new(S::from_dims(d), s)) }
}

/// The result has the shape `d` and element number `n` is `want(n)`.
fn is<I: IntoExpression<Item = El>>(e: I, d: &[usize], want: impl Fn(usize) -> u32) {
    let e = e.into_expr();
    assert!(e.rank() == d.len());
    for i in 0..d.len() {
        assert!(e.dim(i) == d[i]);
    }
    let mut n = 0;
    e.for_each(|x| {
        assert!(x.0 == want(n));
        n += 1;
    });
    assert!(n == len(d));
}

/// All operators for a left and a right operand of two elements.
macro_rules! binary {
    ($x:ident, $y:ident, $a:expr, $b:expr) => {{
        let $x = any::<2>();
        let $y = any::<2>();
        all_ops!($a, $b, |r, op| is(r, &[2], |n| apply2(op, $x[n].0, $y[n].0)));
    }};
}

/// Some operators giving an owned array.
macro_rules! owned {
    ($x:ident, $y:ident, $a:expr, $b:expr) => {{
        let $x = [El(3), El(5)];
        let $y = [El(7), El(9)];
        let r = $a - $b;
        assert!(r.rank() == 1 && r.len() == 2);
        assert!(r[[0]].0 == apply2(2, $x[0].0, $y[0].0) && r[[1]].0 == apply2(2, $x[1].0, $y[1].0));
        let r = $a << $b;
        assert!(r[[0]].0 == apply2(9, $x[0].0, $y[0].0) && r[[1]].0 == apply2(9, $x[1].0, $y[1].0));
        if cfg!(feature = "thorough") {
            let r = $a + $b;
            assert!(r[[0]].0 == apply2(1, $x[0].0, $y[0].0) && r[[1]].0 == apply2(1, $x[1].0, $y[1].0));
            let r = $a * $b;
            assert!(r[[0]].0 == apply2(3, $x[0].0, $y[0].0) && r[[1]].0 == apply2(3, $x[1].0, $y[1].0));
            let r = $a / $b;
            assert!(r[[0]].0 == apply2(4, $x[0].0, $y[0].0) && r[[1]].0 == apply2(4, $x[1].0, $y[1].0));
            let r = $a % $b;
            assert!(r[[0]].0 == apply2(5, $x[0].0, $y[0].0) && r[[1]].0 == apply2(5, $x[1].0, $y[1].0));
            let r = $a & $b;
            assert!(r[[0]].0 == apply2(6, $x[0].0, $y[0].0) && r[[1]].0 == apply2(6, $x[1].0, $y[1].0));
            let r = $a | $b;
            assert!(r[[0]].0 == apply2(7, $x[0].0, $y[0].0) && r[[1]].0 == apply2(7, $x[1].0, $y[1].0));
            let r = $a ^ $b;
            assert!(r[[0]].0 == apply2(8, $x[0].0, $y[0].0) && r[[1]].0 == apply2(8, $x[1].0, $y[1].0));
            let r = $a >> $b;
            assert!(r[[0]].0 == apply2(10, $x[0].0, $y[0].0) && r[[1]].0 == apply2(10, $x[1].0, $y[1].0));
        }
    }};
}

/// Some operators on expressions that move elements out.
macro_rules! moved {
    ($x:ident, $y:ident, $a:expr, $b:expr) => {{
        let $x = [El(3), El(5)];
        let $y = [El(7), El(9)];
        is($a - $b, &[2], |n| apply2(2, $x[n].0, $y[n].0));
        is($a << $b, &[2], |n| apply2(9, $x[n].0, $y[n].0));
        if cfg!(feature = "thorough") {
            is($a + $b, &[2], |n| apply2(1, $x[n].0, $y[n].0));
            is($a * $b, &[2], |n| apply2(3, $x[n].0, $y[n].0));
            is($a / $b, &[2], |n| apply2(4, $x[n].0, $y[n].0));
            is($a % $b, &[2], |n| apply2(5, $x[n].0, $y[n].0));
            is($a & $b, &[2], |n| apply2(6, $x[n].0, $y[n].0));
            is($a | $b, &[2], |n| apply2(7, $x[n].0, $y[n].0));
            is($a ^ $b, &[2], |n| apply2(8, $x[n].0, $y[n].0));
            is($a >> $b, &[2], |n| apply2(10, $x[n].0, $y[n].0));
        }
    }};
}

/// Subtraction with operands of shape 2 x 2.
macro_rules! sub22 {
    ($x:ident, $y:ident, $a:expr, $b:expr) => {{
        let $x = any::<4>();
        let $y = any::<4>();
        is($a - $b, &[2, 2], |n| apply2(2, $x[n].0, $y[n].0));
    }};
}

macro_rules! unary {
    ($x:ident, $a:expr) => {{
        let $x = any::<2>();
        is(-$a, &[2], |n| apply2(11, $x[n].0, 1));
        is(!$a, &[2], |n| apply2(12, $x[n].0, 2));
    }};
}

/// Assignment to a strided view in the middle of a buffer: nothing else changes.
fn assigned(before: &[El; 9], after: &[El; 9], want: impl Fn(usize, u32) -> u32) {
    for i in 0..9 {
        let n = match i {
            1 => Some(0),
            3 => Some(1),
            5 => Some(2),
            7 => Some(3),
            _ => None,
        };
        match n {
            Some(n) => assert!(after[i].0 == want(n, before[i].0)),
            None => assert!(after[i].0 == before[i].0),
        }
    }
}

proofs! {
    // Every kind of left operand, with all operators.
    holds(10) fn b_left_array_ref() { binary!(x, y, &Array::<El, C2>::from(x), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_array() { owned!(x, y, Array::<El, C2>::from(x), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_slice() { binary!(x, y, &*v::<R1>(&x, &[2]), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_view() {
        let (x, y) = (any::<2>(), any::<2>());
        all_ops!(@full; v::<R1>(&x, &[2]), v::<R1>(&y, &[2]), |r, op| is(r, &[2], |n| apply2(op, x[n].0, y[n].0)));
    }
    holds(10) fn b_left_view_ref() { binary!(x, y, &v::<R1>(&x, &[2]), &v::<R1>(&y, &[2])) }
    holds(10) fn b_left_view_mut() {
        let mut z = any::<2>();
        let (x, y) = (z, any::<2>());
        let w = vm::<R1>(&mut z, &[2]);
        all_ops!(&w, v::<R1>(&y, &[2]), |r, op| is(r, &[2], |n| apply2(op, x[n].0, y[n].0)));
    }
    holds(10) fn b_left_tensor_ref() { moved!(x, y, &Tensor::<El, R1>::from(x), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_tensor() { owned!(x, y, Tensor::<El, R1>::from(x), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_fill() {
        let (x, y) = (any::<1>(), any::<2>());
        all_ops!(fill(x[0]), v::<R1>(&y, &[2]), |r, op| is(r, &[2], |n| apply2(op, x[0].0, y[n].0)));
    }
    holds(10) fn b_left_fill_with() {
        let (x, y) = (any::<1>(), any::<2>());
        all_ops!(fill_with(|| x[0]), v::<R1>(&y, &[2]), |r, op| is(r, &[2], |n| apply2(op, x[0].0, y[n].0)));
    }
    holds(10) fn b_left_from_elem() {
        let (x, y) = (any::<1>(), any::<2>());
        all_ops!(from_elem([2], x[0]), v::<R1>(&y, &[2]), |r, op| is(r, &[2], |n| apply2(op, x[0].0, y[n].0)));
    }
    holds(10) fn b_left_from_fn() { binary!(x, y, from_fn([2], |i: &[usize]| x[i[0]]), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_into_expr() { moved!(x, y, Array::<El, C2>::from(x).into_expr(), v::<R1>(&y, &[2])) }
    holds(10) fn b_left_map() { binary!(x, y, v::<R1>(&x, &[2]).map(|e| *e), v::<R1>(&y, &[2])) }
    // Every kind of right operand.
    holds(10) fn b_right_array_ref() { binary!(x, y, v::<R1>(&x, &[2]), &Array::<El, C2>::from(y)) }
    holds(10) fn b_right_array() { owned!(x, y, v::<R1>(&x, &[2]), Array::<El, C2>::from(y)) }
    holds(10) fn b_right_array2() { owned!(x, y, Array::<El, C2>::from(x), Array::<El, C2>::from(y)) }
    holds(10) fn b_right_slice() { binary!(x, y, v::<R1>(&x, &[2]), &*v::<R1>(&y, &[2])) }
    holds(10) fn b_right_tensor() { owned!(x, y, v::<R1>(&x, &[2]), Tensor::<El, R1>::from(y)) }
    holds(10) fn b_right_tensor2() { owned!(x, y, Tensor::<El, R1>::from(x), Tensor::<El, R1>::from(y)) }
    holds(10) fn b_right_tensor_ref() { moved!(x, y, v::<R1>(&x, &[2]), &Tensor::<El, R1>::from(y)) }
    holds(10) fn b_right_into_expr() { moved!(x, y, v::<R1>(&x, &[2]), Array::<El, C2>::from(y).into_expr()) }
    holds(10) fn b_right_map() { binary!(x, y, v::<R1>(&x, &[2]), v::<R1>(&y, &[2]).map(|e| *e)) }
    holds(10) fn b_right_from_fn() { binary!(x, y, v::<R1>(&x, &[2]), from_fn([2], |i: &[usize]| y[i[0]])) }
    holds(10) fn b_right_fill() {
        let (x, y) = (any::<2>(), any::<1>());
        all_ops!(v::<R1>(&x, &[2]), fill(y[0]), |r, op| is(r, &[2], |n| apply2(op, x[n].0, y[0].0)));
    }
    holds(10) fn b_right_fill_array() {
        owned!(x, y, Array::<El, C2>::from(x), from_fn([2], |i: &[usize]| y[i[0]]));
        let (x, y) = (any::<2>(), any::<1>());
        let r = Array::<El, C2>::from(x) - fill(y[0]);
        assert!(r[[0]].0 == apply2(2, x[0].0, y[0].0) && r[[1]].0 == apply2(2, x[1].0, y[0].0));
    }
    holds(10) fn b_right_fill_with() {
        let (x, y) = (any::<2>(), any::<1>());
        all_ops!(v::<R1>(&x, &[2]), fill_with(|| y[0]), |r, op| is(r, &[2], |n| apply2(op, x[n].0, y[0].0)));
    }
    holds(10) fn b_right_from_elem() {
        let (x, y) = (any::<2>(), any::<1>());
        all_ops!(v::<R1>(&x, &[2]), from_elem([2], y[0]), |r, op| is(r, &[2], |n| apply2(op, x[n].0, y[0].0)));
    }
    // Shapes and layouts.
    holds(18) fn b_sub_dd() { sub22!(x, y, v::<R2>(&x, &[2, 2]), v::<R2>(&y, &[2, 2])) }
    holds(18) fn b_sub_sd() { sub22!(x, y, vs::<R2>(&[x[0], x[2], x[1], x[3]], &[2, 2], &[1, 2]), v::<R2>(&y, &[2, 2])) }
    holds(18) fn b_sub_ds() { sub22!(x, y, v::<R2>(&x, &[2, 2]), vs::<R2>(&[y[0], y[2], y[1], y[3]], &[2, 2], &[1, 2])) }
    holds(18) fn b_sub_ss() { sub22!(x, y, &*vs::<R2>(&[x[0], x[2], x[1], x[3]], &[2, 2], &[1, 2]), &*vs::<R2>(&[y[0], y[2], y[1], y[3]], &[2, 2], &[1, 2])) }
    holds(18) fn b_sub_tensor() { sub22!(x, y, Tensor::<El, R2>::from([[x[0], x[1]], [x[2], x[3]]]), vs::<R2>(&[y[0], y[2], y[1], y[3]], &[2, 2], &[1, 2])) }
    holds(18) fn b_sub_tensor_right() { sub22!(x, y, vs::<R2>(&[x[0], x[2], x[1], x[3]], &[2, 2], &[1, 2]), Tensor::<El, R2>::from([[y[0], y[1]], [y[2], y[3]]])) }
    holds(18) fn b_sub_array() { sub22!(x, y, Array::<El, C22>::from([[x[0], x[1]], [x[2], x[3]]]), vs::<R2>(&[y[0], y[2], y[1], y[3]], &[2, 2], &[1, 2])) }
    holds(18) fn b_sub_array_right() { sub22!(x, y, vs::<R2>(&[x[0], x[2], x[1], x[3]], &[2, 2], &[1, 2]), Array::<El, C22>::from([[y[0], y[1]], [y[2], y[3]]])) }
    holds(18) fn b_sub_dyn() { sub22!(x, y, v::<DynRank>(&x, &[2, 2]), v::<R2>(&y, &[2, 2])) }
    // Broadcasting.
    holds(34) fn b_bc_left() {
        let (x, y) = (any::<2>(), any::<4>());
        is(v::<R1>(&x, &[2]) - v::<R2>(&y, &[2, 2]), &[2, 2], |n| apply2(2, x[n % 2].0, y[n].0));
    }
    holds(34) fn b_bc_right() {
        let (x, y) = (any::<4>(), any::<2>());
        is(v::<R2>(&x, &[2, 2]) - vs::<R1>(&y, &[2], &[1]), &[2, 2], |n| apply2(2, x[n].0, y[n % 2].0));
    }
    holds(34) fn b_bc_tensor() {
        let (x, y) = (any::<4>(), any::<2>());
        is(Tensor::<El, R2>::from([[x[0], x[1]], [x[2], x[3]]]) - v::<R1>(&y, &[2]), &[2, 2], |n| apply2(2, x[n].0, y[n % 2].0));
    }
    holds(34) fn b_bc_tensor_right() {
        let (x, y) = (any::<2>(), any::<4>());
        is(v::<R1>(&x, &[2]) - Tensor::<El, R2>::from([[y[0], y[1]], [y[2], y[3]]]), &[2, 2], |n| apply2(2, x[n % 2].0, y[n].0));
    }
    holds(34) fn b_bc_array() {
        let (x, y) = (any::<4>(), any::<2>());
        is(Array::<El, C22>::from([[x[0], x[1]], [x[2], x[3]]]) - v::<R1>(&y, &[2]), &[2, 2], |n| apply2(2, x[n].0, y[n % 2].0));
    }
    panics(34) fn b_bc_tensor_panics() {
        let (x, y) = (any::<2>(), any::<4>());
        let _ = Tensor::<El, R1>::from([x[0], x[1]]) - v::<R2>(&y, &[2, 2]);
    }
    panics(34) fn b_bc_array_panics() {
        let (x, y) = (any::<2>(), any::<4>());
        let _ = Array::<El, C2>::from([x[0], x[1]]) - v::<R2>(&y, &[2, 2]);
    }
    panics(34) fn b_mismatch_panics() {
        let (x, y) = (any::<2>(), any::<3>());
        let _ = Tensor::<El, R1>::from([x[0], x[1]]) - v::<R1>(&y, &[3]);
    }
    panics(34) fn b_mismatch_array_panics() {
        let (x, y) = (any::<2>(), any::<3>());
        let _ = Array::<El, C2>::from([x[0], x[1]]) - v::<R1>(&y, &[3]);
    }
    holds(34) fn b_nested() {
        let (x, y, z) = (any::<2>(), any::<2>(), any::<2>());
        is((v::<R1>(&x, &[2]) - v::<R1>(&y, &[2])) / v::<R1>(&z, &[2]), &[2], |n| apply2(4, apply2(2, x[n].0, y[n].0), z[n].0));
        is(v::<R1>(&x, &[2]) - v::<R1>(&y, &[2]) / v::<R1>(&z, &[2]), &[2], |n| apply2(2, x[n].0, apply2(4, y[n].0, z[n].0)));
    }
    holds(34) fn b_empty() {
        let y = any::<1>();
        is(v::<R2>(&y, &[0, 2]) - v::<R2>(&y, &[0, 2]), &[0, 2], |_| 0);
        is(Tensor::<El, R2>::new() - fill(y[0]), &[0, 0], |_| 0);
    }
    // Unary operators.
    holds(10) fn b_unary_array_ref() { unary!(x, &Array::<El, C2>::from(x)) }
    holds(10) fn b_unary_array() { unary!(x, Array::<El, C2>::from(x)) }
    holds(10) fn b_unary_slice() { unary!(x, &*v::<R1>(&x, &[2])) }
    holds(10) fn b_unary_view() { unary!(x, v::<R1>(&x, &[2])) }
    holds(10) fn b_unary_strided() { unary!(x, vs::<R1>(&[x[0], x[0], x[0], x[1]], &[2], &[3])) }
    holds(10) fn b_unary_view_ref() { unary!(x, &v::<R1>(&x, &[2])) }
    holds(10) fn b_unary_tensor_ref() { unary!(x, &Tensor::<El, R1>::from(x)) }
    holds(10) fn b_unary_tensor() { unary!(x, Tensor::<El, R1>::from(x)) }
    holds(10) fn b_unary_from_fn() { unary!(x, from_fn([2], |i: &[usize]| x[i[0]])) }
    holds(10) fn b_unary_into_expr() { unary!(x, Array::<El, C2>::from(x).into_expr()) }
    holds(10) fn b_unary_map() { unary!(x, v::<R1>(&x, &[2]).map(|e| *e)) }
    holds(10) fn b_unary_view_mut() {
        let mut z = any::<2>();
        let x = z;
        let w = vm::<R1>(&mut z, &[2]);
        is(-&w, &[2], |n| apply2(11, x[n].0, 1));
        is(!&w, &[2], |n| apply2(12, x[n].0, 2));
    }
    holds(10) fn b_unary_fill() {
        let x = any::<1>();
        is(-fill(x[0]), &[], |_| apply2(11, x[0].0, 1));
        is(!fill(x[0]), &[], |_| apply2(12, x[0].0, 2));
        is(-fill_with(|| x[0]), &[], |_| apply2(11, x[0].0, 1));
        is(!fill_with(|| x[0]), &[], |_| apply2(12, x[0].0, 2));
        is(-from_elem([2], x[0]), &[2], |_| apply2(11, x[0].0, 1));
        is(!from_elem([2], x[0]), &[2], |_| apply2(12, x[0].0, 2));
    }
    // Compound assignment.
    holds(10) fn b_assign_array() {
        let (x, y) = (any::<2>(), any::<2>());
        all_assign!(Array::<El, C2>::from(x), v::<R1>(&y, &[2]), |r: Array<El, C2>, op| for n in 0..2 { assert!(r[[n]].0 == apply2(op, x[n].0, y[n].0)) });
    }
    holds(10) fn b_assign_tensor() {
        let (x, y) = (any::<2>(), any::<2>());
        all_assign!(Tensor::<El, R1>::from(x), v::<R1>(&y, &[2]), |r: Tensor<El, R1>, op| for n in 0..2 { assert!(r[[n]].0 == apply2(op, x[n].0, y[n].0)) });
    }
    holds(10) fn b_assign_view_mut() {
        let (x, y) = (any::<2>(), any::<2>());
        let mut z = x;
        all_assign!(@full; { z = x; vm::<R1>(&mut z, &[2]) }, v::<R1>(&y, &[2]),
            |r: ViewMut<El, R1>, op| is(r.map(|e| *e), &[2], |n| apply2(op, x[n].0, y[n].0)));
    }
    holds(10) fn b_assign_slice() {
        let (x, y) = (any::<2>(), any::<2>());
        let mut z = Tensor::<El, R1>::from(x);
        let w = v::<R1>(&y, &[2]);
        all_assign!({ z[[0]] = x[0]; z[[1]] = x[1]; &mut *z }, &w,
            |r: &mut Slice<El, R1>, op| is(r.expr().map(|e| *e), &[2], |n| apply2(op, x[n].0, y[n].0)));
    }
    holds(18) fn b_assign_frame() {
        let (x, y) = (any::<9>(), any::<4>());
        let mut z = x;
        let mut w = vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]);
        w -= v::<R2>(&y, &[2, 2]);
        assigned(&x, &z, |n, old| apply2(2, old, y[n].0));
    }
    holds(18) fn b_assign_frame_owned() {
        let (x, y) = (any::<9>(), any::<4>());
        let mut z = x;
        *vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]) /= Array::<El, C22>::from([[y[0], y[1]], [y[2], y[3]]]);
        assigned(&x, &z, |n, old| apply2(4, old, y[n].0));
    }
    holds(34) fn b_assign_bc() {
        let (x, y) = (any::<9>(), any::<2>());
        let mut z = x;
        *vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]) -= v::<R1>(&y, &[2]);
        assigned(&x, &z, |n, old| apply2(2, old, y[n % 2].0));
    }
    holds(34) fn b_assign_bc_fill() {
        let (x, y) = (any::<9>(), any::<1>());
        let mut z = x;
        *vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]) -= fill(y[0]);
        assigned(&x, &z, |_, old| apply2(2, old, y[0].0));
    }
    panics(34) fn b_assign_bc_panics() {
        let (mut x, y) = (any::<2>(), any::<4>());
        *vm::<R1>(&mut x, &[2]) -= v::<R2>(&y, &[2, 2]);
    }
    // Assign, fill.
    holds(18) fn b_plain_assign_refs() {
        let (x, y) = (any::<9>(), any::<4>());
        let mut z = x;
        vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]).assign(v::<R2>(&y, &[2, 2]));
        assigned(&x, &z, |n, _| y[n].0);
    }
    holds(18) fn b_plain_assign_values() {
        let (x, y) = (any::<9>(), any::<4>());
        let mut z = x;
        vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]).assign(Array::<El, C22>::from([[y[0], y[1]], [y[2], y[3]]]));
        assigned(&x, &z, |n, _| y[n].0);
    }
    holds(34) fn b_plain_assign_bc() {
        let (x, y) = (any::<9>(), any::<2>());
        let mut z = x;
        vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]).assign(vs::<R1>(&y, &[2], &[1]));
        assigned(&x, &z, |n, _| y[n % 2].0);
    }
    holds(18) fn b_plain_assign_strided() {
        let (x, y) = (any::<4>(), any::<4>());
        let mut z = x;
        vm::<R2>(&mut z, &[2, 2]).assign(vs::<R2>(&y, &[2, 2], &[1, 2]));
        assert!(z[0] == y[0] && z[1] == y[2] && z[2] == y[1] && z[3] == y[3]);
    }
    panics(34) fn b_plain_assign_bc_panics() {
        let (mut x, y) = (any::<2>(), any::<4>());
        vm::<R1>(&mut x, &[2]).assign(v::<R2>(&y, &[2, 2]));
    }
    panics(34) fn b_plain_assign_panics() {
        let (mut x, y) = (any::<3>(), any::<2>());
        vm::<R1>(&mut x, &[3]).assign(v::<R1>(&y, &[2]));
    }
    holds(18) fn b_fill() {
        let (x, y) = (any::<9>(), any::<1>());
        let mut z = x;
        vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]).fill(y[0]);
        assigned(&x, &z, |_, _| y[0].0);
    }
    holds(18) fn b_fill_with() {
        let (x, y) = (any::<9>(), any::<4>());
        let mut z = x;
        let mut k = 0;
        vsm::<R2>(&mut z[1..], &[2, 2], &[4, 2]).fill_with(|| { k += 1; y[k - 1] });
        assigned(&x, &z, |n, _| y[n].0);
        assert!(k == 4);
    }
    holds(18) fn b_fill_dense() {
        let (x, y) = (any::<9>(), any::<4>());
        let mut z = x;
        vm::<R2>(&mut z[3..], &[2, 1]).fill(y[0]);
        vm::<R1>(&mut z[6..], &[2]).fill_with(|| y[1]);
        for i in 0..9 {
            assert!(z[i].0 == match i { 3 | 4 => y[0].0, 6 | 7 => y[1].0, _ => x[i].0 });
        }
    }
    // Closures.
    holds(18) fn b_map_tensor() {
        let x = any::<4>();
        is(Tensor::<El, R2>::from([[x[0], x[1]], [x[2], x[3]]]).map(|e| -e), &[2, 2], |n| apply2(11, x[n].0, 1));
        is(Tensor::<El, R2>::from([[x[0], x[1]], [x[2], x[3]]]).apply(|e| !e), &[2, 2], |n| apply2(12, x[n].0, 2));
    }
    holds(18) fn b_map_array() {
        let x = any::<4>();
        let r = Array::<El, C22>::from([[x[0], x[1]], [x[2], x[3]]]).map(|e| -e);
        let q = Array::<El, C22>::from([[x[0], x[1]], [x[2], x[3]]]).apply(|e| !e);
        for n in 0..4 {
            assert!(r[[n / 2, n % 2]].0 == apply2(11, x[n].0, 1) && q[[n / 2, n % 2]].0 == apply2(12, x[n].0, 2));
        }
    }
    holds(18) fn b_zip_with() {
        let (x, y) = (any::<2>(), any::<2>());
        let f = |(a, b): (El, &El)| El(apply2(7, a.0, b.0));
        is(Apply::zip_with(Tensor::<El, R1>::from(x), v::<R1>(&y, &[2]), f), &[2], |n| apply2(7, x[n].0, y[n].0));
        is(Apply::zip_with(Array::<El, C2>::from(x), v::<R1>(&y, &[2]), f), &[2], |n| apply2(7, x[n].0, y[n].0));
        let g = |(a, b): (&El, &El)| El(apply2(7, a.0, b.0));
        is((&Tensor::<El, R1>::from(x)).zip_with(v::<R1>(&y, &[2]), g), &[2], |n| apply2(7, x[n].0, y[n].0));
        is((&Array::<El, C2>::from(x)).zip_with(v::<R1>(&y, &[2]), g), &[2], |n| apply2(7, x[n].0, y[n].0));
    }
    holds(18) fn b_apply_mut() {
        let (x, y) = (any::<2>(), any::<2>());
        let mut t = Tensor::<El, R1>::from(x);
        is((&mut t).apply(|e: &mut El| { *e = -*e; *e }), &[2], |n| apply2(11, x[n].0, 1));
        is((&mut t).zip_with(v::<R1>(&y, &[2]), |(e, f): (&mut El, &El)| { *e = *e - f; *e }), &[2], |n| apply2(2, apply2(11, x[n].0, 1), y[n].0));
        assert!(t[[1]].0 == apply2(2, apply2(11, x[1].0, 1), y[1].0));
        let mut a = Array::<El, C2>::from(x);
        is((&mut a).apply(|e: &mut El| { *e = -*e; *e }), &[2], |n| apply2(11, x[n].0, 1));
        is((&mut a).zip_with(v::<R1>(&y, &[2]), |(e, f): (&mut El, &El)| { *e = *e - f; *e }), &[2], |n| apply2(2, apply2(11, x[n].0, 1), y[n].0));
        assert!(a[[0]].0 == apply2(2, apply2(11, x[0].0, 1), y[0].0));
    }
}
