//! C04: axis, row, column, diagonal and split views.
use crate::model::*;
use crate::nd;
use mdarray::index::*;
use mdarray::*;

/// Axis contracts on mappings of arbitrary size and strides.
fn axis_contract<S: Shape, A: Axis, const N: usize, const K: usize>(axis: A, x: usize) {
    let (d, s, m) = any_strided::<S, N>();
    assert!(axis.index(N) == x);
    is_mapping(&axis.get(&m), &[d[x]], &[s[x]]);
    is_mapping(&axis.remove(&m), &without::<_, N, K>(&d, x), &without::<_, N, K>(&s, x));
    let size = nd::usize();
    let mut e = d;
    e[x] = size;
    is_mapping(&axis.resize(&m, size), &e, &s);
}

/// Views along an axis, of any size and strides within the bounds.
fn axis_views<S: Shape, L: Layout, A: Axis, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize) {
    let base = v.as_ptr();
    if nd::bool() {
        let i = nd::usize();
        nd::assume(i < d[x]);
        let (e, t) = (without::<_, N, K>(&d, x), without::<_, N, K>(&s, x));
        is_view(&v.axis_at(axis, i), base, s[x] * i as isize, &e, &t);
        is_view(&v.axis_at_mut(axis, i), base, s[x] * i as isize, &e, &t);
    } else {
        let mid = nd::upto(d[x]);
        let (mut e, mut f) = (d, d);
        e[x] = mid;
        f[x] = d[x] - mid;
        let (a, b) = v.split_axis_at(axis, mid);
        is_view(&a, base, 0, &e, &s);
        is_view(&b, base, s[x] * mid as isize, &f, &s);
        let (a, b) = v.split_axis_at_mut(axis, mid);
        is_view(&a, base, 0, &e, &s);
        is_view(&b, base, s[x] * mid as isize, &f, &s);
    }
}

/// The same on large views: indexing only.
fn wide_at<S: Shape, L: Layout, A: Axis, const N: usize, const K: usize>(v: &Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize) {
    let i = nd::usize();
    nd::assume(i < d[x]);
    let (e, t) = (without::<_, N, K>(&d, x), without::<_, N, K>(&s, x));
    is_view(&v.axis_at(axis, i), v.as_ptr(), s[x] * i as isize, &e, &t);
}

/// The same on large views: splitting only.
fn wide_split<S: Shape, L: Layout, A: Axis, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize) {
    let base = v.as_ptr();
    let mid = nd::upto(d[x]);
    let (mut e, mut f) = (d, d);
    e[x] = mid;
    f[x] = d[x] - mid;
    let (a, b) = v.split_axis_at_mut(axis, mid);
    is_view(&a, base, 0, &e, &s);
    is_view(&b, base, s[x] * mid as isize, &f, &s);
}

fn strided_at<S: Shape, A: Axis, const N: usize, const K: usize>(axis: A, x: usize, max: isize) {
    let d = nd::upto_n::<N>(max as usize);
    let s = nd::within_n::<N>(max);
    wide_at::<_, _, _, N, K>(&*strided::<S>(huge(), &d, &s), d, s, axis, x)
}

fn strided_split<S: Shape, A: Axis, const N: usize>(axis: A, x: usize, max: isize) {
    let d = nd::upto_n::<N>(max as usize);
    let s = nd::within_n::<N>(max);
    wide_split(&mut *strided_mut::<S>(huge(), &d, &s), d, s, axis, x)
}

fn dense_at<S: Shape, A: Axis, const N: usize, const K: usize>(axis: A, x: usize, max: usize) {
    let d = nd::upto_n::<N>(max);
    wide_at::<_, _, _, N, K>(&*dense::<S>(huge(), &d), d, row_major(&d), axis, x)
}

fn dense_split<S: Shape, A: Axis, const N: usize>(axis: A, x: usize, max: usize) {
    let d = nd::upto_n::<N>(max);
    wide_split(&mut *dense_mut::<S>(huge(), &d), d, row_major(&d), axis, x)
}

/// The first dimension.
fn first<S: Shape, L: Layout, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let base = v.as_ptr();
    if nd::bool() {
        let i = nd::usize();
        nd::assume(i < d[0]);
        let (e, t) = (without::<_, N, K>(&d, 0), without::<_, N, K>(&s, 0));
        is_view(&v.at(i), base, s[0] * i as isize, &e, &t);
        is_view(&v.at_mut(i), base, s[0] * i as isize, &e, &t);
        is_view(&v.expr().into_at(i), base, s[0] * i as isize, &e, &t);
        is_view(&v.expr_mut().into_at(i), base, s[0] * i as isize, &e, &t);
    } else {
        let mid = nd::upto(d[0]);
        let (mut e, mut f) = (d, d);
        e[0] = mid;
        f[0] = d[0] - mid;
        let start = s[0] * mid as isize;
        let (a, b) = v.split_at(mid);
        is_view(&a, base, 0, &e, &s);
        is_view(&b, base, start, &f, &s);
        let (a, b) = v.split_at_mut(mid);
        is_view(&a, base, 0, &e, &s);
        is_view(&b, base, start, &f, &s);
        let (a, b) = v.expr().into_split_at(mid);
        is_view(&a, base, 0, &e, &s);
        is_view(&b, base, start, &f, &s);
        let (a, b) = v.expr_mut().into_split_at(mid);
        is_view(&a, base, 0, &e, &s);
        is_view(&b, base, start, &f, &s);
    }
}

/// Rows and columns of a matrix.
fn row_col<S: Shape, L: Layout>(v: &mut Slice<u8, S, L>, d: [usize; 2], s: [isize; 2]) {
    let base = v.as_ptr();
    if nd::bool() {
        let i = nd::usize();
        nd::assume(i < d[0]);
        is_view(&v.row(i), base, s[0] * i as isize, &[d[1]], &[s[1]]);
        is_view(&v.row_mut(i), base, s[0] * i as isize, &[d[1]], &[s[1]]);
        is_view(&v.expr().into_row(i), base, s[0] * i as isize, &[d[1]], &[s[1]]);
    } else {
        let i = nd::usize();
        nd::assume(i < d[1]);
        is_view(&v.col(i), base, s[1] * i as isize, &[d[0]], &[s[0]]);
        is_view(&v.col_mut(i), base, s[1] * i as isize, &[d[0]], &[s[0]]);
        is_view(&v.expr().into_col(i), base, s[1] * i as isize, &[d[0]], &[s[0]]);
    }
}

/// The diagonal k: element i is at row i + max(-k, 0) and column i + max(k, 0).
fn diag<S: Shape, L: Layout>(v: &mut Slice<u8, S, L>, d: [usize; 2], s: [isize; 2]) {
    let base = v.as_ptr();
    let k = nd::isize();
    nd::assume(-(d[0] as isize) <= k && k <= d[1] as isize);
    let (row, col) = if k < 0 { (k.unsigned_abs(), 0) } else { (0, k as usize) };
    let n = (d[0] - row).min(d[1] - col);
    let start = s[0] * row as isize + s[1] * col as isize;
    is_view(&v.diag(k), base, start, &[n], &[s[0] + s[1]]);
    is_view(&v.diag_mut(k), base, start, &[n], &[s[0] + s[1]]);
    is_view(&v.expr().into_diag(k), base, start, &[n], &[s[0] + s[1]]);
    is_view(&v.expr_mut().into_diag(k), base, start, &[n], &[s[0] + s[1]]);
}

proofs! {
    // Contracts of the axis types on mappings, for all sizes and strides, every rank and axis.
    holds(8) fn p_axis_r1_0() { axis_contract::<R1, _, 1, 0>(Const::<0>, 0) }
    holds(8) fn p_axis_r2_0() { axis_contract::<R2, _, 2, 1>(Const::<0>, 0) }
    holds(8) fn p_axis_r2_1() { axis_contract::<R2, _, 2, 1>(Const::<1>, 1) }
    holds(8) fn p_axis_r3_0() { axis_contract::<R3, _, 3, 2>(Const::<0>, 0) }
    holds(8) fn p_axis_r3_1() { axis_contract::<R3, _, 3, 2>(Const::<1>, 1) }
    holds(8) fn p_axis_r3_2() { axis_contract::<R3, _, 3, 2>(Const::<2>, 2) }
    holds(8) fn p_axis_r4_0() { axis_contract::<R4, _, 4, 3>(Const::<0>, 0) }
    holds(8) fn p_axis_r4_1() { axis_contract::<R4, _, 4, 3>(Const::<1>, 1) }
    holds(8) fn p_axis_r4_2() { axis_contract::<R4, _, 4, 3>(Const::<2>, 2) }
    holds(8) fn p_axis_r4_3() { axis_contract::<R4, _, 4, 3>(Const::<3>, 3) }
    holds(8) fn p_axis_r5_2() { axis_contract::<R5, _, 5, 4>(Const::<2>, 2) }
    holds(8) fn p_axis_r5_4() { axis_contract::<R5, _, 5, 4>(Const::<4>, 4) }
    holds(8) fn p_axis_r6_0() { axis_contract::<R6, _, 6, 5>(Const::<0>, 0) }
    holds(8) fn p_axis_r6_3() { axis_contract::<R6, _, 6, 5>(Const::<3>, 3) }
    holds(8) fn p_axis_r6_5() { axis_contract::<R6, _, 6, 5>(Const::<5>, 5) }
    holds(8) fn p_axis_r1_rows() { axis_contract::<R1, _, 1, 0>(Rows, 0) }
    holds(8) fn p_axis_r2_rows() { axis_contract::<R2, _, 2, 1>(Rows, 1) }
    holds(8) fn p_axis_r2_cols() { axis_contract::<R2, _, 2, 1>(Cols, 0) }
    holds(8) fn p_axis_r3_rows() { axis_contract::<R3, _, 3, 2>(Rows, 2) }
    holds(8) fn p_axis_r3_cols() { axis_contract::<R3, _, 3, 2>(Cols, 1) }
    holds(8) fn p_axis_r6_rows() { axis_contract::<R6, _, 6, 5>(Rows, 5) }
    holds(8) fn p_axis_r6_cols() { axis_contract::<R6, _, 6, 5>(Cols, 4) }
    holds(8) fn p_axis_r1_d0() { axis_contract::<R1, Dyn, 1, 0>(0, 0) }
    holds(8) fn p_axis_r2_d0() { axis_contract::<R2, Dyn, 2, 1>(0, 0) }
    holds(8) fn p_axis_r2_d1() { axis_contract::<R2, Dyn, 2, 1>(1, 1) }
    holds(8) fn p_axis_r3_d0() { axis_contract::<R3, Dyn, 3, 2>(0, 0) }
    holds(8) fn p_axis_r3_d1() { axis_contract::<R3, Dyn, 3, 2>(1, 1) }
    holds(8) fn p_axis_r3_d2() { axis_contract::<R3, Dyn, 3, 2>(2, 2) }
    holds(8) fn p_axis_r6_d4() { axis_contract::<R6, Dyn, 6, 5>(4, 4) }
    holds(8) fn p_axis_dyn_d0() { axis_contract::<DynRank, Dyn, 2, 1>(0, 0) }
    holds(8) fn p_axis_dyn_d1() { axis_contract::<DynRank, Dyn, 3, 2>(1, 1) }
    holds(8) fn p_axis_dyn_c1() { axis_contract::<DynRank, _, 3, 2>(Const::<1>, 1) }
    // Views along an axis.
    holds(8) fn b_at_s1_0() { strided_at::<R1, _, 1, 0>(Const::<0>, 0, 1 << 10) }
    holds(8) fn b_at_s2_0() { strided_at::<R2, _, 2, 1>(Const::<0>, 0, 1 << 8) }
    holds(8) fn b_at_s2_1() { strided_at::<R2, _, 2, 1>(Const::<1>, 1, 1 << 8) }
    holds(8) fn b_at_s3_1() { strided_at::<R3, _, 3, 2>(Const::<1>, 1, 1 << 8) }
    holds(8) fn b_at_s3_2() { strided_at::<R3, _, 3, 2>(Const::<2>, 2, 1 << 8) }
    holds(8) fn b_at_s6_4() { strided_at::<R6, _, 6, 5>(Const::<4>, 4, 1 << 6) }
    holds(8) fn b_at_s2_d1() { strided_at::<R2, Dyn, 2, 1>(1, 1, 1 << 8) }
    holds(8) fn b_at_d1_0() { dense_at::<R1, _, 1, 0>(Const::<0>, 0, 1 << 40) }
    holds(8) fn b_at_d2_0() { dense_at::<R2, _, 2, 1>(Const::<0>, 0, 1 << 8) }
    holds(8) fn b_at_d2_1() { dense_at::<R2, _, 2, 1>(Const::<1>, 1, 1 << 8) }
    holds(8) fn b_at_d3_0() { dense_at::<R3, _, 3, 2>(Const::<0>, 0, 1 << 4) }
    holds(8) fn b_at_d3_1() { dense_at::<R3, _, 3, 2>(Const::<1>, 1, 1 << 4) }
    holds(8) fn b_at_d3_2() { dense_at::<R3, _, 3, 2>(Const::<2>, 2, 1 << 4) }
    holds(8) fn b_at_d3_d1() { dense_at::<R3, Dyn, 3, 2>(1, 1, 1 << 4) }
    holds(8) fn b_at_d2_rows() { dense_at::<R2, _, 2, 1>(Rows, 1, 1 << 8) }
    holds(8) fn b_at_d2_cols() { dense_at::<R2, _, 2, 1>(Cols, 0, 1 << 8) }
    holds(8) fn b_split_s1_0() { strided_split::<R1, _, 1>(Const::<0>, 0, 1 << 10) }
    holds(8) fn b_split_s2_0() { strided_split::<R2, _, 2>(Const::<0>, 0, 1 << 8) }
    holds(8) fn b_split_s2_1() { strided_split::<R2, _, 2>(Const::<1>, 1, 1 << 8) }
    holds(8) fn b_split_s3_1() { strided_split::<R3, _, 3>(Const::<1>, 1, 1 << 8) }
    holds(8) fn b_split_d1_0() { dense_split::<R1, _, 1>(Const::<0>, 0, 1 << 40) }
    holds(8) fn b_split_d2_0() { dense_split::<R2, _, 2>(Const::<0>, 0, 1 << 8) }
    holds(8) fn b_split_d2_1() { dense_split::<R2, _, 2>(Const::<1>, 1, 1 << 8) }
    holds(8) fn b_split_d3_0() { dense_split::<R3, _, 3>(Const::<0>, 0, 1 << 4) }
    holds(8) fn b_split_d3_1() { dense_split::<R3, _, 3>(Const::<1>, 1, 1 << 4) }
    holds(8) fn b_split_d2_rows() { dense_split::<R2, _, 2>(Rows, 1, 1 << 8) }
    holds(8) fn b_views_s2_0() { small_strided::<R2, 2>([3, 4], 9, |v, d, s| axis_views::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_views_s2_1() { small_strided::<R2, 2>([3, 4], 9, |v, d, s| axis_views::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1)) }
    holds(8) fn b_views_d3_0() { small_dense::<R3, 3>([3, 2, 4], |v, d, s| axis_views::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_views_d3_1() { small_dense::<R3, 3>([3, 2, 4], |v, d, s| axis_views::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1)) }
    holds(8) fn b_views_d3_2() { small_dense::<R3, 3>([3, 2, 4], |v, d, s| axis_views::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2)) }
    holds(8) fn b_views_dyn_d1() { small_dense::<DynRank, 3>([2, 3, 2], |v, d, s| axis_views::<_, _, Dyn, 3, 2>(v, d, s, 1, 1)) }
    holds(8) fn b_views_dyn_s0() { small_strided::<DynRank, 2>([3, 2], 9, |v, d, s| axis_views::<_, _, Dyn, 2, 1>(v, d, s, 0, 0)) }
    holds(8) fn b_views_const_1() { small_dense::<(Const<2>, Const<3>, Dyn), 3>([2, 3, 2], |v, d, s| axis_views::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1)) }
    holds(8) fn b_views_const_0() { small_dense::<(Const<2>, Const<3>), 2>([2, 3], |v, d, s| axis_views::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_views_empty() { small_dense::<R3, 3>([2, 0, 3], |v, d, s| axis_views::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_views_empty_2() { small_dense::<R3, 3>([2, 0, 3], |v, d, s| axis_views::<_, _, _, 3, 2>(v, d, s, Const::<2>, 2)) }
    holds(8) fn b_into_axis_s2() {
        small_strided::<R2, 2>([3, 4], 12, |v, _, s| {
            let base = v.as_ptr();
            let (i, mid) = (nd::usize(), nd::upto(4));
            nd::assume(i < 4);
            is_view(&v.expr().into_axis_at(Const::<1>, i), base, s[1] * i as isize, &[3], &[s[0]]);
            is_view(&v.expr_mut().into_axis_at(Const::<1>, i), base, s[1] * i as isize, &[3], &[s[0]]);
            let (a, b) = v.expr().into_split_axis_at(Const::<1>, mid);
            is_view(&a, base, 0, &[3, mid], &s);
            is_view(&b, base, s[1] * mid as isize, &[3, 4 - mid], &s);
            let (a, b) = v.expr_mut().into_split_axis_at(Const::<1>, mid);
            is_view(&a, base, 0, &[3, mid], &s);
            is_view(&b, base, s[1] * mid as isize, &[3, 4 - mid], &s);
        })
    }
    holds(8) fn b_first_s1() { small_strided::<R1, 1>([5], 12, first::<_, _, 1, 0>) }
    holds(8) fn b_first_s2() { small_strided::<R2, 2>([3, 4], 12, first::<_, _, 2, 1>) }
    holds(8) fn b_first_d1() { small_dense::<R1, 1>([5], first::<_, _, 1, 0>) }
    holds(8) fn b_first_d3() { small_dense::<R3, 3>([3, 2, 4], first::<_, _, 3, 2>) }
    holds(8) fn b_first_dyn() { small_dense::<DynRank, 2>([3, 4], first::<_, _, 2, 1>) }
    holds(8) fn b_first_const() { small_dense::<(Const<3>, Dyn), 2>([3, 4], first::<_, _, 2, 1>) }
    // Rows and columns.
    holds(8) fn b_row_col_d() { small_dense::<R2, 2>([3, 4], row_col) }
    holds(8) fn b_row_col_d1() { small_dense::<R2, 2>([1, 4], row_col) }
    holds(8) fn b_row_col_const() { small_dense::<(Const<3>, Const<2>), 2>([3, 2], row_col) }
    holds(8) fn b_row_col_dyn() { small_dense::<DynRank, 2>([3, 2], row_col) }
    holds(8) fn b_row_col_s() { small_strided::<R2, 2>([3, 4], 12, row_col) }
    holds(8) fn b_row_col_s1() { small_strided::<R2, 2>([3, 1], 12, row_col) }
    holds(8) fn b_row_col_s2() { small_strided::<R2, 2>([1, 3], 12, row_col) }
    // Diagonals.
    holds(8) fn b_diag_d() { small_dense::<R2, 2>([3, 4], diag) }
    holds(8) fn b_diag_d2() { small_dense::<R2, 2>([4, 2], diag) }
    holds(8) fn b_diag_d3() { small_dense::<R2, 2>([1, 3], diag) }
    holds(8) fn b_diag_empty() { small_dense::<R2, 2>([0, 3], diag) }
    holds(8) fn b_diag_const() { small_dense::<(Const<3>, Const<2>), 2>([3, 2], diag) }
    holds(8) fn b_diag_dyn() { small_dense::<DynRank, 2>([3, 3], diag) }
    holds(8) fn b_diag_s() { small_strided::<R2, 2>([3, 4], 12, diag) }
    holds(8) fn b_diag_s2() { small_strided::<R2, 2>([4, 1], 12, diag) }
    holds(8) fn b_diag_wide() {
        let d = nd::upto_n::<2>(1 << 10);
        let s = nd::within_n::<2>(1 << 10);
        let v = strided::<R2>(huge(), &d, &s);
        let base = v.as_ptr();
        let k = nd::isize();
        nd::assume(-(d[0] as isize) <= k && k <= d[1] as isize);
        let (row, col) = if k < 0 { (k.unsigned_abs(), 0) } else { (0, k as usize) };
        let n = (d[0] - row).min(d[1] - col);
        let start = if k < 0 { -k * s[0] } else { k * s[1] };
        is_view(&v.into_diag(k), base, start, &[n], &[s[0] + s[1]]);
    }
}
