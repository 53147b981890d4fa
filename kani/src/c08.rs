//! C08: lanes and axis expressions.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::index::*;
use mdarray::*;

/// Lane number `n` in row-major order of the other dimensions.
fn lane<const N: usize, const K: usize>(d: &[usize; N], s: &[isize; N], x: usize, n: usize) -> isize {
    addr(&without::<_, N, K>(s, x), &unlinear(&without::<_, N, K>(d, x), n))
}

/// The lanes along axis `x`, pulled or folded.
fn lanes<S: Shape, L: Layout, A: Axis, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize, mode: u8) {
    let base = v.as_ptr();
    let e = without::<_, N, K>(&d, x);
    let count = len(&e);
    let mut n = 0;
    match mode {
        0 => {
            let expr = v.lanes(axis);
            assert!(expr.rank() == K && expr.len() == count);
            for i in 0..K {
                assert!(expr.dim(i) == e[i]);
            }
            for r in expr {
                is_view(&r, base, lane::<N, K>(&d, &s, x, n), &[d[x]], &[s[x]]);
                n += 1;
            }
        }
        1 => {
            for r in v.lanes_mut(axis) {
                is_view(&r, base, lane::<N, K>(&d, &s, x, n), &[d[x]], &[s[x]]);
                n += 1;
            }
        }
        2 => v.lanes(axis).for_each(|r| {
            is_view(&r, base, lane::<N, K>(&d, &s, x, n), &[d[x]], &[s[x]]);
            n += 1;
        }),
        _ => v.lanes_mut(axis).for_each(|r| {
            is_view(&r, base, lane::<N, K>(&d, &s, x, n), &[d[x]], &[s[x]]);
            n += 1;
        }),
    }
    assert!(n == count);
}

/// The subarrays along axis `x`, pulled or folded.
fn axes<S: Shape, L: Layout, A: Axis, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize, mode: u8) {
    let base = v.as_ptr();
    let (e, t) = (without::<_, N, K>(&d, x), without::<_, N, K>(&s, x));
    let mut n = 0;
    match mode {
        0 => {
            let expr = v.axis_expr(axis);
            assert!(expr.rank() == 1 && expr.len() == d[x] && expr.dim(0) == d[x]);
            for r in expr {
                is_view(&r, base, s[x] * n as isize, &e, &t);
                n += 1;
            }
        }
        1 => {
            for r in v.axis_expr_mut(axis) {
                is_view(&r, base, s[x] * n as isize, &e, &t);
                n += 1;
            }
        }
        2 => v.axis_expr(axis).for_each(|r| {
            is_view(&r, base, s[x] * n as isize, &e, &t);
            n += 1;
        }),
        _ => v.axis_expr_mut(axis).for_each(|r| {
            is_view(&r, base, s[x] * n as isize, &e, &t);
            n += 1;
        }),
    }
    assert!(n == d[x]);
}

/// Elements of a mutable expression are disjoint and cover the array: each is incremented once.
macro_rules! covers {
    ($d:expr, $s:ty, $($f:tt)*) => {{
        let d = $d;
        let n = len(&d);
        let mut buf = BUF;
        let mut v = dense_mut::<$s>(buf.as_mut_ptr(), &d);
        v.$($f)*.for_each(|mut r| r.expr_mut().for_each(|x| *x += 100));
        for i in 0..13 {
            assert!(buf[i] == i as u8 + if i < n { 100 } else { 0 });
        }
    }};
}

proofs! {
    // Lanes.
    holds(9) fn b_lanes_s_r1() { small_strided::<R1, 1>([3], 1 << 20, |v, d, s| lanes::<_, _, _, 1, 0>(v, d, s, Const::<0>, 0, nd::u8() % 4)) }
    holds(9) fn b_lanes_s_r2_0() { small_strided::<R2, 2>([3, 2], 1 << 20, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_s_r2_1() { small_strided::<R2, 2>([3, 2], 1 << 20, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_lanes_s_r2_rows() { small_strided::<R2, 2>([3, 2], 1 << 20, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Rows, 1, 2)) }
    holds(9) fn b_lanes_s_r2_cols() { small_strided::<R2, 2>([2, 3], 1 << 20, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Cols, 0, 3)) }
    holds(9) fn b_lanes_s_r2_dyn() { small_strided::<R2, 2>([3, 2], 1 << 20, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, 0usize, 0, 0)) }
    holds(9) fn b_lanes_s_r3_0() { small_strided::<R3, 3>([3, 2, 2], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_s_r3_1() { small_strided::<R3, 3>([2, 3, 2], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_lanes_s_r3_2() { small_strided::<R3, 3>([2, 2, 3], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2, 2)) }
    holds(9) fn b_lanes_s_r3_cols() { small_strided::<R3, 3>([2, 3, 2], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Cols, 1, 3)) }
    holds(9) fn b_lanes_s_r3_rows() { small_strided::<R3, 3>([2, 2, 2], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Rows, 2, 0)) }
    holds(9) fn b_lanes_s_r3_dyn() { small_strided::<R3, 3>([2, 2, 2], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, 1usize, 1, 3)) }
    holds(9) fn b_lanes_s_empty0() { small_strided::<R2, 2>([0, 2], 100, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_s_empty1() { small_strided::<R2, 2>([0, 2], 100, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_lanes_s_empty3() { small_strided::<R3, 3>([2, 2, 0], 100, |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2, 0)) }
    holds(9) fn b_lanes_s_dynrank() { small_strided::<DynRank, 2>([2, 2], 100, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, 0usize, 0, 0)) }
    holds(9) fn b_lanes_s_dynrank_c() { small_strided::<DynRank, 2>([2, 2], 100, |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 2)) }
    holds(9) fn b_lanes_s_dynrank1() { small_strided::<DynRank, 1>([2], 100, |v, d, s| lanes::<_, _, _, 1, 0>(v, d, s, 0usize, 0, 0)) }
    holds(9) fn b_lanes_d_r1() { small_dense::<R1, 1>([4], |v, d, s| lanes::<_, _, _, 1, 0>(v, d, s, Const::<0>, 0, nd::u8() % 4)) }
    holds(9) fn b_lanes_d_r2_0() { small_dense::<R2, 2>([2, 4], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 1)) }
    holds(9) fn b_lanes_d_r2_1() { small_dense::<R2, 2>([4, 2], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 2)) }
    holds(9) fn b_lanes_d_r2_rows() { small_dense::<R2, 2>([4, 2], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Rows, 1, 3)) }
    holds(9) fn b_lanes_d_r2_cols() { small_dense::<R2, 2>([2, 4], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Cols, 0, 0)) }
    holds(9) fn b_lanes_d_r2_dyn() { small_dense::<R2, 2>([2, 4], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, 1usize, 1, 0)) }
    holds(9) fn b_lanes_d_r3_0() { small_dense::<R3, 3>([2, 2, 3], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_d_r3_1() { small_dense::<R3, 3>([3, 2, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1, 3)) }
    holds(9) fn b_lanes_d_r3_2() { small_dense::<R3, 3>([3, 2, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2, 1)) }
    holds(9) fn b_lanes_d_r3_cols() { small_dense::<R3, 3>([2, 2, 3], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Cols, 1, 2)) }
    holds(9) fn b_lanes_d_r3_rows() { small_dense::<R3, 3>([2, 3, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Rows, 2, 0)) }
    holds(9) fn b_lanes_d_r3_dyn() { small_dense::<R3, 3>([2, 2, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, 2usize, 2, 1)) }
    holds(9) fn b_lanes_d_r4_1() { small_dense::<R4, 4>([2, 2, 1, 2], |v, d, s| lanes::<_, _, _, 4, 3>(v, d, s, Const::<1>, 1, 0)) }
    holds(9) fn b_lanes_d_r4_3() { small_dense::<R4, 4>([2, 1, 2, 3], |v, d, s| lanes::<_, _, _, 4, 3>(v, d, s, Const::<3>, 3, 1)) }
    holds(9) fn b_lanes_d_empty0() { small_dense::<R2, 2>([0, 2], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_d_empty1() { small_dense::<R2, 2>([2, 0], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_lanes_d_empty2() { small_dense::<R3, 3>([2, 0, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_d_dynrank() { small_dense::<DynRank, 2>([2, 3], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, 0usize, 0, 1)) }
    holds(9) fn b_lanes_d_dynrank1() { small_dense::<DynRank, 1>([3], |v, d, s| lanes::<_, _, _, 1, 0>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_lanes_d_dynrank3() { small_dense::<DynRank, 3>([2, 1, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Cols, 1, 0)) }
    holds(9) fn b_lanes_d_const() { small_dense::<(Const<2>, Const<3>), 2>([2, 3], |v, d, s| lanes::<_, _, _, 2, 1>(v, d, s, Cols, 0, 0)) }
    holds(9) fn b_lanes_d_mixed() { small_dense::<(Const<2>, Dyn, Const<2>), 3>([2, 3, 2], |v, d, s| lanes::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1, 1)) }
    // Axes.
    holds(9) fn b_axes_s_r1() { small_strided::<R1, 1>([3], 1 << 20, |v, d, s| axes::<_, _, _, 1, 0>(v, d, s, Const::<0>, 0, nd::u8() % 4)) }
    holds(9) fn b_axes_s_r2_0() { small_strided::<R2, 2>([4, 2], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_axes_s_r2_1() { small_strided::<R2, 2>([2, 4], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_axes_s_r2_dyn() { small_strided::<R2, 2>([2, 3], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, 1usize, 1, 2)) }
    holds(9) fn b_axes_s_r2_cols() { small_strided::<R2, 2>([3, 2], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Cols, 0, 3)) }
    holds(9) fn b_axes_s_r3_0() { small_strided::<R3, 3>([3, 2, 2], 1 << 20, |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0, 3)) }
    holds(9) fn b_axes_s_r3_1() { small_strided::<R3, 3>([2, 3, 2], 1 << 20, |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1, 2)) }
    holds(9) fn b_axes_s_r3_2() { small_strided::<R3, 3>([2, 2, 3], 1 << 20, |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2, 1)) }
    holds(9) fn b_axes_s_r3_rows() { small_strided::<R3, 3>([2, 2, 3], 1 << 20, |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Rows, 2, 0)) }
    holds(9) fn b_axes_s_r6() { small_strided::<R6, 6>([1, 2, 2, 1, 3, 2], 1 << 20, |v, d, s| axes::<_, _, _, 6, 5>(v, d, s, Const::<4>, 4, 0)) }
    holds(9) fn b_axes_s_empty() { small_strided::<R2, 2>([2, 0], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_axes_s_empty1() { small_strided::<R2, 2>([2, 0], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_axes_s_dynrank() { small_strided::<DynRank, 2>([2, 3], 1 << 20, |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, 1usize, 1, 1)) }
    holds(9) fn b_axes_d_r1() { small_dense::<R1, 1>([4], |v, d, s| axes::<_, _, _, 1, 0>(v, d, s, Const::<0>, 0, nd::u8() % 4)) }
    holds(9) fn b_axes_d_r2_0() { small_dense::<R2, 2>([4, 3], |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 1)) }
    holds(9) fn b_axes_d_r2_1() { small_dense::<R2, 2>([3, 4], |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 2)) }
    holds(9) fn b_axes_d_r2_dyn() { small_dense::<R2, 2>([3, 4], |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, 0usize, 0, 3)) }
    holds(9) fn b_axes_d_r3_0() { small_dense::<R3, 3>([4, 2, 3], |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_axes_d_r3_1() { small_dense::<R3, 3>([3, 4, 2], |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1, 3)) }
    holds(9) fn b_axes_d_r3_2() { small_dense::<R3, 3>([3, 2, 4], |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2, 0)) }
    holds(9) fn b_axes_d_r3_cols() { small_dense::<R3, 3>([3, 4, 2], |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Cols, 1, 1)) }
    holds(9) fn b_axes_d_empty() { small_dense::<R3, 3>([2, 0, 3], |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2, 0)) }
    holds(9) fn b_axes_d_empty1() { small_dense::<R3, 3>([2, 0, 3], |v, d, s| axes::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1, 1)) }
    holds(9) fn b_axes_d_dynrank() { small_dense::<DynRank, 2>([3, 2], |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0, 0)) }
    holds(9) fn b_axes_d_const() { small_dense::<(Const<2>, Const<3>), 2>([2, 3], |v, d, s| axes::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1, 0)) }
    // Named methods.
    holds(9) fn b_outer() {
        small_strided::<R2, 2>([3, 2], 1 << 20, |v, _, s| {
            let base = v.as_ptr();
            let mut n = 0;
            for r in v.outer_expr() {
                is_view(&r, base, s[0] * n, &[2], &[s[1]]);
                n += 1;
            }
            for r in v.outer_expr_mut() {
                is_view(&r, base, s[0] * (n - 3), &[2], &[s[1]]);
                n += 1;
            }
            assert!(n == 6);
        })
    }
    holds(9) fn b_rows() {
        small_dense::<R3, 3>([2, 2, 3], |v, _, _| {
            let base = v.as_ptr();
            let mut n = 0;
            for r in v.rows() {
                is_view(&r, base, 3 * n, &[3], &[1]);
                n += 1;
            }
            for r in v.rows_mut() {
                is_view(&r, base, 3 * (n - 4), &[3], &[1]);
                n += 1;
            }
            assert!(n == 8);
        })
    }
    holds(9) fn b_cols() {
        small_dense::<R3, 3>([2, 3, 2], |v, _, _| {
            let base = v.as_ptr();
            let mut n = 0;
            for r in v.cols() {
                is_view(&r, base, 6 * (n / 2) + n % 2, &[3], &[2]);
                n += 1;
            }
            for r in v.cols_mut() {
                n -= 4;
                is_view(&r, base, 6 * (n / 2) + n % 2, &[3], &[2]);
                n += 5;
            }
            assert!(n == 8);
        })
    }
    holds(9) fn b_clone() {
        small_dense::<R3, 3>([2, 2, 2], |v, _, _| {
            let base = v.as_ptr();
            let mut it = v.lanes(Const::<1>).into_iter();
            for _ in 0..3 {
                let _ = it.next();
            }
            is_view(&it.clone().next().unwrap(), base, 5, &[2], &[2]);
            let mut it = v.axis_expr(Const::<1>).into_iter();
            let _ = it.next();
            is_view(&it.clone().next().unwrap(), base, 2, &[2, 2], &[4, 1]);
        })
    }
    // Lanes and axes as operands of expressions with a larger rank.
    holds(34) fn b_zip_lanes() {
        small_dense::<R3, 3>([2, 3, 2], |v, _, _| {
            let base = v.as_ptr();
            let idx = from_fn([2, 2], |i: &[usize]| (6 * i[0] + i[1]) as isize);
            let mut n = 0;
            v.lanes(Const::<1>).zip(idx).for_each(|(r, p)| {
                is_view(&r, base, p, &[3], &[2]);
                n += 1;
            });
            assert!(n == 4);
        })
    }
    holds(34) fn b_zip_axis() {
        small_dense::<R2, 2>([2, 3], |v, _, _| {
            let base = v.as_ptr();
            let idx = from_fn([2, 2], |i: &[usize]| i[1] as isize);
            let mut n = 0;
            v.axis_expr(Const::<0>).zip(idx).for_each(|(r, p)| {
                is_view(&r, base, 3 * p, &[3], &[1]);
                n += 1;
            });
            assert!(n == 4);
        })
    }
    // Disjoint and complete.
    holds(14) fn b_covers_lanes0() { covers!([2, 3], R2, lanes_mut(Const::<0>)) }
    holds(14) fn b_covers_lanes1() { covers!([2, 2, 3], R3, lanes_mut(Const::<1>)) }
    holds(14) fn b_covers_rows() { covers!([3, 2], R2, rows_mut()) }
    holds(14) fn b_covers_cols() { covers!([3, 2], R2, cols_mut()) }
    holds(14) fn b_covers_axis1() { covers!([2, 3], R2, axis_expr_mut(Const::<1>)) }
    holds(14) fn b_covers_outer() { covers!([3, 2], R2, outer_expr_mut()) }
}
