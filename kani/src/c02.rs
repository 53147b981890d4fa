//! C02: out-of-bounds indices and invalid arguments panic. Checked with debug assertions and
//! overflow checks off, so that only the checks of a release build count.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::index::*;
use mdarray::*;
use std::ops::Bound;

/// A strided view with arbitrary sizes and strides.
fn any_view<S: Shape, const N: usize>() -> ([usize; N], ViewMut<'static, u8, S, Strided>) {
    let (d, s) = (nd::usizes::<N>(), nd::isizes::<N>());
    (d, strided_mut::<S>(huge(), &d, &s))
}

/// A dense view with arbitrary sizes.
fn any_dense<S: Shape, const N: usize>() -> ([usize; N], ViewMut<'static, u8, S>) {
    let d = nd::usizes::<N>();
    (d, dense_mut::<S>(huge(), &d))
}

/// A dense or strided view with sizes within the bound.
fn small_view<S: Shape, const N: usize>(max: usize) -> ([usize; N], ViewMut<'static, u8, S, Strided>) {
    let d = nd::upto_n::<N>(max);
    (d, strided_mut::<S>(huge(), &d, &nd::isizes::<N>()))
}

fn small_dense<S: Shape, const N: usize>(max: usize) -> ([usize; N], ViewMut<'static, u8, S>) {
    let d = nd::upto_n::<N>(max);
    (d, dense_mut::<S>(huge(), &d))
}

/// A multi-index with at least one component out of bounds.
fn bad_index<const N: usize>(d: &[usize; N]) -> [usize; N] {
    let i = nd::usizes::<N>();
    let mut inside = true;
    for k in 0..N {
        inside &= i[k] < d[k];
    }
    nd::assume(!inside);
    i
}

/// An index out of bounds.
fn beyond(n: usize) -> usize {
    let i = nd::usize();
    nd::assume(i >= n);
    i
}

/// A split point out of bounds.
fn past(n: usize) -> usize {
    let i = nd::usize();
    nd::assume(i > n);
    i
}

/// A range that is out of bounds or reversed.
fn bad_range(n: usize) -> std::ops::Range<usize> {
    let (a, b) = (nd::usize(), nd::usize());
    nd::assume(a > b || b > n);
    a..b
}

fn bad_inclusive(n: usize) -> std::ops::RangeInclusive<usize> {
    let (a, b) = (nd::usize(), nd::usize());
    nd::assume(b >= n || a > b + 1);
    a..=b
}

fn any_bound() -> Bound<usize> {
    match nd::upto(2) {
        0 => Bound::Included(nd::usize()),
        1 => Bound::Excluded(nd::usize()),
        _ => Bound::Unbounded,
    }
}

/// A pair of bounds that is out of bounds or reversed.
fn bad_bounds(n: usize) -> (Bound<usize>, Bound<usize>) {
    let r = (any_bound(), any_bound());
    let a = match r.0 {
        Bound::Included(a) => a as u128,
        Bound::Excluded(a) => a as u128 + 1,
        Bound::Unbounded => 0,
    };
    let b = match r.1 {
        Bound::Included(b) => b as u128 + 1,
        Bound::Excluded(b) => b as u128,
        Bound::Unbounded => n as u128,
    };
    nd::assume(a > b || b > n as u128);
    r
}

/// A range of elements that is within bounds.
fn good_range(n: usize) -> std::ops::Range<usize> {
    let b = nd::upto(n);
    nd::upto(b)..b
}

fn axis<S: Shape, A: Axis, const N: usize>(axis: A, x: usize) {
    let (d, mut v) = any_view::<S, N>();
    let i = beyond(d[x]);
    match nd::upto(2) {
        0 => { v.axis_at(axis, i); }
        1 => { v.axis_at_mut(axis, i); }
        _ => { v.into_axis_at(axis, i); }
    }
}

fn axis_dense<S: Shape, A: Axis, const N: usize>(axis: A, x: usize) {
    let (d, mut v) = any_dense::<S, N>();
    let i = beyond(d[x]);
    match nd::upto(2) {
        0 => { v.axis_at(axis, i); }
        1 => { v.axis_at_mut(axis, i); }
        _ => { v.into_axis_at(axis, i); }
    }
}

fn split<S: Shape, A: Axis, const N: usize>(axis: A, x: usize) {
    let (d, mut v) = any_view::<S, N>();
    let i = past(d[x]);
    match nd::upto(2) {
        0 => { v.split_axis_at(axis, i); }
        1 => { v.split_axis_at_mut(axis, i); }
        _ => { v.into_split_axis_at(axis, i); }
    }
}

fn split_dense<S: Shape, A: Axis, const N: usize>(axis: A, x: usize) {
    let (d, mut v) = any_dense::<S, N>();
    let i = past(d[x]);
    match nd::upto(2) {
        0 => { v.split_axis_at(axis, i); }
        1 => { v.split_axis_at_mut(axis, i); }
        _ => { v.into_split_axis_at(axis, i); }
    }
}

fn bad_diag(d: &[usize; 2]) -> isize {
    let k = nd::isize();
    nd::assume(if k >= 0 { k as usize > d[1] } else { k.unsigned_abs() > d[0] });
    k
}

fn bad_perm<const N: usize>() -> [usize; N] {
    let p = nd::usizes::<N>();
    nd::assume(!is_perm(&p));
    p
}

/// A shape of `N` dimensions, none inferred, with another length.
fn bad_shape<const N: usize>(n: usize, max: usize) -> [usize; N] {
    let d = nd::upto_n::<N>(max);
    nd::assume(len(&d) != n);
    d
}

crate::proofs! {
    // Element access.
    panics(10) fn p_index_r1_panics() { let (d, v) = any_view::<R1, 1>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_r2_panics() { let (d, v) = any_view::<R2, 2>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_r3_panics() { let (d, v) = any_view::<R3, 3>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_r4_panics() { let (d, v) = any_view::<R4, 4>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_r6_panics() { let (d, v) = any_view::<R6, 6>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_mut_r1_panics() { let (d, mut v) = any_view::<R1, 1>(); let i = bad_index(&d); v[i] = 1; }
    panics(10) fn p_index_mut_r2_panics() { let (d, mut v) = any_view::<R2, 2>(); let i = bad_index(&d); v[i] = 1; }
    panics(10) fn p_index_mut_r3_panics() { let (d, mut v) = any_view::<R3, 3>(); let i = bad_index(&d); v[i] = 1; }
    panics(10) fn p_index_mut_r6_panics() { let (d, mut v) = any_view::<R6, 6>(); let i = bad_index(&d); v[i] = 1; }
    panics(10) fn p_index_dense_r2_panics() { let (d, v) = any_dense::<R2, 2>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_dense_r3_panics() { let (d, v) = any_dense::<R3, 3>(); let i = bad_index(&d); let _ = v[i]; }
    panics(10) fn p_index_mut_dense_r2_panics() { let (d, mut v) = any_dense::<R2, 2>(); let i = bad_index(&d); v[i] = 1; }
    panics(10) fn b_index_dyn_panics() { let (d, v) = any_view::<DynRank, 3>(); let i = bad_index(&d); let _ = v[&i[..]]; }
    panics(10) fn b_index_mut_dyn_panics() { let (d, mut v) = any_dense::<DynRank, 2>(); let i = bad_index(&d); v[&i[..]] = 1; }
    panics(10) fn p_index_rank_panics() { let (_, v) = any_view::<R2, 2>(); let _ = v[nd::usizes::<1>()]; }
    panics(10) fn p_index_rank_more_panics() { let (_, v) = any_view::<R2, 2>(); let _ = v[nd::usizes::<3>()]; }
    panics(10) fn p_index_rank_mut_panics() { let (_, mut v) = any_view::<R2, 2>(); v[nd::usizes::<1>()] = 1; }
    panics(10) fn p_index_rank_mut_more_panics() { let (_, mut v) = any_dense::<R1, 1>(); v[nd::usizes::<2>()] = 1; }
    panics(10) fn p_index_rank0_panics() { let (_, v) = any_view::<R2, 2>(); let _ = v[&[][..]]; }
    panics(10) fn b_index_rank_dyn_panics() { let (_, v) = any_view::<DynRank, 2>(); let _ = v[nd::usizes::<3>()]; }
    panics(10) fn b_index_rank_dyn_less_panics() { let (_, mut v) = any_dense::<DynRank, 2>(); v[nd::usizes::<1>()] = 1; }
    panics(10) fn p_linear_r1_panics() { let (d, v) = any_view::<R1, 1>(); let i = beyond(d[0]); let _ = v[i]; }
    panics(10) fn p_linear_mut_r1_panics() { let (d, mut v) = any_view::<R1, 1>(); let i = beyond(d[0]); v[i] = 1; }
    panics(10) fn p_linear_dense_r1_panics() { let (d, v) = any_dense::<R1, 1>(); let i = beyond(d[0]); let _ = v[i]; }
    panics(10) fn b_linear_r2_panics() { let (d, v) = small_view::<R2, 2>(1 << 8); let i = beyond(len(&d)); let _ = v[i]; }
    panics(10) fn b_linear_mut_r2_panics() { let (d, mut v) = small_view::<R2, 2>(1 << 8); let i = beyond(len(&d)); v[i] = 1; }
    panics(10) fn b_linear_dense_r2_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); let i = beyond(len(&d)); let _ = v[i]; }
    panics(10) fn b_linear_mut_dense_r2_panics() { let (d, mut v) = small_dense::<R2, 2>(1 << 8); let i = beyond(len(&d)); v[i] = 1; }
    panics(10) fn b_linear_r3_panics() { let (d, v) = small_view::<R3, 3>(1 << 5); let i = beyond(len(&d)); let _ = v[i]; }
    panics(10) fn b_linear_dyn_panics() { let (d, mut v) = small_dense::<DynRank, 2>(1 << 8); let i = beyond(len(&d)); v[i] = 1; }
    panics(10) fn p_linear_r0_panics() { let v = dense::<R0>(huge(), &[]); let i = beyond(1); let _ = v[i]; }
    panics(10) fn p_array_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; let i = bad_index(&[2, 3]); let _ = a[i]; }
    panics(10) fn p_array_mut_panics() { let mut a = array![[1u8, 2, 3], [4, 5, 6]]; let i = bad_index(&[2, 3]); a[i] = 1; }
    panics(10) fn p_array_linear_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; let i = beyond(6); let _ = a[i]; }
    panics(10) fn p_array_linear_mut_panics() { let mut a = array![[1u8, 2, 3], [4, 5, 6]]; let i = beyond(6); a[i] = 1; }
    panics(10) fn b_tensor_panics() { let t = tensor![[1u8, 2, 3], [4, 5, 6]]; let i = bad_index(&[2, 3]); let _ = t[i]; }
    panics(10) fn b_tensor_mut_panics() { let mut t = tensor![[1u8, 2, 3], [4, 5, 6]]; let i = bad_index(&[2, 3]); t[i] = 1; }
    panics(10) fn b_tensor_linear_panics() { let mut t = tensor![[1u8, 2, 3], [4, 5, 6]]; let i = beyond(6); if nd::bool() { t[i] = 1 } else { let _ = t[i]; } }
    panics(10) fn b_flat_range_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); let r = bad_range(len(&d)); let _ = &v[r]; }
    panics(10) fn b_flat_range_mut_panics() { let (d, mut v) = small_dense::<R2, 2>(1 << 8); let r = bad_range(len(&d)); let _ = &mut v[r]; }
    panics(10) fn b_flat_others_panics() {
        let (d, mut v) = small_dense::<R2, 2>(1 << 5);
        let n = len(&d);
        match nd::upto(7) {
            0 => { let _ = &v[past(n)..]; }
            1 => { let _ = &mut v[past(n)..]; }
            2 => { let _ = &v[..past(n)]; }
            3 => { let _ = &mut v[..past(n)]; }
            4 => { let _ = &v[..=beyond(n)]; }
            5 => { let _ = &mut v[..=beyond(n)]; }
            6 => { let _ = &v[bad_bounds(n)]; }
            _ => { let _ = &mut v[bad_bounds(n)]; }
        }
    }
    panics(10) fn b_flat_inclusive_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); let r = bad_inclusive(len(&d)); let _ = &v[r]; }

    // Subarray views.
    panics(10) fn p_view_index_panics() { let (d, v) = any_view::<R1, 1>(); v.view(beyond(d[0])); }
    panics(10) fn p_view_index_mut_panics() { let (d, mut v) = any_view::<R1, 1>(); v.view_mut(beyond(d[0])); }
    panics(10) fn p_view_index_dense_panics() { let (d, v) = any_dense::<R1, 1>(); v.view(beyond(d[0])); }
    panics(10) fn p_view_range_panics() { let (d, v) = any_view::<R1, 1>(); v.view(bad_range(d[0])); }
    panics(10) fn p_view_range_mut_panics() { let (d, mut v) = any_view::<R1, 1>(); v.view_mut(bad_range(d[0])); }
    panics(10) fn p_view_range_dense_panics() { let (d, v) = any_dense::<R1, 1>(); v.view(bad_range(d[0])); }
    panics(10) fn p_view_range_into_panics() { let (d, v) = any_dense::<R1, 1>(); v.into_view(bad_range(d[0])); }
    panics(10) fn p_view_from_panics() { let (d, v) = any_view::<R1, 1>(); v.view(past(d[0])..); }
    panics(10) fn p_view_to_panics() { let (d, v) = any_view::<R1, 1>(); v.view(..past(d[0])); }
    panics(10) fn p_view_to_incl_panics() { let (d, v) = any_view::<R1, 1>(); v.view(..=beyond(d[0])); }
    panics(10) fn p_view_incl_panics() { let (d, v) = any_view::<R1, 1>(); v.view(bad_inclusive(d[0])); }
    panics(10) fn p_view_bounds_panics() { let (d, v) = any_view::<R1, 1>(); v.view(bad_bounds(d[0])); }
    panics(10) fn p_view_step_panics() { let (d, v) = any_view::<R1, 1>(); v.view(step(bad_range(d[0]), nd::isize())); }
    panics(10) fn p_view_step_bounds_panics() { let (d, mut v) = any_view::<R1, 1>(); v.view_mut(step(bad_bounds(d[0]), nd::isize())); }
    panics(10) fn p_view_step_from_panics() { let (d, v) = any_dense::<R1, 1>(); v.view(step(past(d[0]).., nd::isize())); }
    panics(10) fn p_view_step_to_panics() { let (d, v) = any_dense::<R1, 1>(); v.view(step(..past(d[0]), nd::isize())); }
    panics(10) fn p_view_step_zero_panics() { let (_, v) = any_view::<R1, 1>(); v.view(step(.., 0)); }
    panics(10) fn p_view_step_zero_range_panics() { let (d, v) = any_dense::<R1, 1>(); v.view(step(good_range(d[0]), 0)); }
    panics(10) fn p_view2_index_panics() {
        let (d, v) = any_view::<R2, 2>();
        let i = bad_index(&d);
        v.view(i[0], i[1]);
    }
    panics(10) fn p_view2_outer_panics() { let (d, v) = any_view::<R2, 2>(); v.view(beyond(d[0]), ..); }
    panics(10) fn p_view2_inner_panics() { let (d, v) = any_view::<R2, 2>(); v.view(.., beyond(d[1])); }
    panics(10) fn p_view2_range_outer_panics() { let (d, v) = any_view::<R2, 2>(); v.view(bad_range(d[0]), ..); }
    panics(10) fn p_view2_range_inner_panics() { let (d, mut v) = any_view::<R2, 2>(); v.view_mut(.., bad_range(d[1])); }
    panics(10) fn p_view2_mixed_panics() { let (d, v) = any_view::<R2, 2>(); v.view(good_range(d[0]), beyond(d[1])); }
    panics(10) fn p_view2_mixed_outer_panics() { let (d, v) = any_view::<R2, 2>(); v.view(beyond(d[0]), good_range(d[1])); }
    panics(10) fn p_view2_dense_panics() { let (d, v) = any_dense::<R2, 2>(); v.view(bad_range(d[0]), ..); }
    panics(10) fn p_view2_dense_inner_panics() { let (d, v) = any_dense::<R2, 2>(); v.view(.., bad_range(d[1])); }
    panics(10) fn p_view2_step_panics() { let (d, v) = any_view::<R2, 2>(); v.view(step(bad_range(d[0]), -1), ..); }
    panics(10) fn p_view2_step_inner_panics() { let (d, v) = any_view::<R2, 2>(); v.view(.., step(bad_range(d[1]), -1)); }
    panics(10) fn p_view2_step_zero_panics() { let (_, v) = any_view::<R2, 2>(); v.view(.., step(.., 0)); }
    panics(10) fn p_view3_index_panics() { let (d, v) = any_view::<R3, 3>(); let i = bad_index(&d); v.view(i[0], i[1], i[2]); }
    panics(10) fn p_view3_middle_panics() { let (d, v) = any_view::<R3, 3>(); v.view(.., bad_range(d[1]), ..); }
    panics(10) fn p_view3_middle_index_panics() { let (d, mut v) = any_view::<R3, 3>(); v.view_mut(.., beyond(d[1]), ..); }
    panics(10) fn p_view3_outer_panics() { let (d, v) = any_dense::<R3, 3>(); v.view(beyond(d[0]), .., ..); }
    panics(10) fn p_view4_panics() { let (d, v) = any_view::<R4, 4>(); let i = bad_index(&d); v.view(i[0], i[1], i[2], i[3]); }
    panics(10) fn p_view6_panics() { let (d, v) = any_view::<R6, 6>(); let i = bad_index(&d); v.view(i[0], i[1], i[2], i[3], i[4], i[5]); }
    panics(10) fn b_array_view_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; a.view(bad_range(2), ..); }
    panics(10) fn b_tensor_copy_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; a.tensor(bad_range(2), beyond(3)); }
    panics(10) fn b_array_copy_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; a.array(beyond(2), ..); }

    // Axes, rows, columns and diagonals.
    panics(10) fn p_axis_r1_panics() { axis::<R1, _, 1>(Const::<0>, 0) }
    panics(10) fn p_axis_r2_panics() { axis::<R2, _, 2>(Const::<0>, 0) }
    panics(10) fn p_axis_r2_1_panics() { axis::<R2, _, 2>(Const::<1>, 1) }
    panics(10) fn p_axis_r3_2_panics() { axis::<R3, _, 3>(Const::<2>, 2) }
    panics(10) fn p_axis_cols_panics() { axis::<R2, _, 2>(Cols, 0) }
    panics(10) fn p_axis_rows_panics() { axis::<R3, _, 3>(Rows, 2) }
    panics(10) fn p_axis_dynamic_panics() { let x = nd::upto(2); axis::<R3, _, 3>(x, x) }
    panics(10) fn b_axis_dynrank_panics() { let x = nd::upto(1); axis::<DynRank, _, 2>(x, x) }
    panics(10) fn p_axis_dense_panics() { axis_dense::<R2, _, 2>(Const::<0>, 0) }
    panics(10) fn p_axis_dense_1_panics() { axis_dense::<R2, _, 2>(Const::<1>, 1) }
    panics(10) fn p_axis_invalid_panics() { let (_, v) = any_view::<R2, 2>(); v.axis_at(beyond(2), nd::usize()); }
    panics(10) fn p_axis_invalid_mut_panics() { let (_, mut v) = any_dense::<R3, 3>(); v.axis_at_mut(beyond(3), nd::usize()); }
    panics(10) fn b_axis_invalid_dyn_panics() { let (_, v) = any_dense::<DynRank, 1>(); v.axis_at(Const::<1>, nd::usize()); }
    panics(10) fn b_axis_invalid_cols_panics() { let (_, v) = any_dense::<DynRank, 1>(); v.axis_at(Cols, nd::usize()); }
    panics(10) fn b_axis_rank0_panics() { let v = dense::<DynRank>(huge(), &[]); v.at(nd::usize()); }
    panics(10) fn p_at_panics() { let (d, v) = any_view::<R2, 2>(); v.at(beyond(d[0])); }
    panics(10) fn p_at_mut_panics() { let (d, mut v) = any_dense::<R2, 2>(); v.at_mut(beyond(d[0])); }
    panics(10) fn p_into_at_panics() { let (d, v) = any_dense::<R1, 1>(); v.into_at(beyond(d[0])); }
    panics(10) fn p_split_r1_panics() { split::<R1, _, 1>(Const::<0>, 0) }
    panics(10) fn p_split_r2_1_panics() { split::<R2, _, 2>(Const::<1>, 1) }
    panics(10) fn p_split_r3_panics() { split::<R3, _, 3>(Const::<1>, 1) }
    panics(10) fn p_split_cols_panics() { split::<R2, _, 2>(Cols, 0) }
    panics(10) fn p_split_dynamic_panics() { let x = nd::upto(2); split::<R3, _, 3>(x, x) }
    panics(10) fn p_split_dense_panics() { split_dense::<R2, _, 2>(Const::<0>, 0) }
    panics(10) fn p_split_dense_1_panics() { split_dense::<R2, _, 2>(Const::<1>, 1) }
    panics(10) fn p_split_at_panics() { let (d, v) = any_view::<R2, 2>(); v.split_at(past(d[0])); }
    panics(10) fn p_split_at_mut_panics() { let (d, mut v) = any_dense::<R2, 2>(); v.split_at_mut(past(d[0])); }
    panics(10) fn p_into_split_at_panics() { let (d, v) = any_dense::<R1, 1>(); v.into_split_at(past(d[0])); }
    panics(10) fn p_split_invalid_panics() { let (_, v) = any_view::<R2, 2>(); v.split_axis_at(beyond(2), nd::usize()); }
    panics(10) fn b_diag_panics() { let d = [3, 4]; let v = strided::<R2>(huge(), &d, &nd::isizes::<2>()); v.diag(bad_diag(&d)); }
    panics(10) fn b_diag_mut_panics() { let d = [3, 4]; let mut v = strided_mut::<R2>(huge(), &d, &nd::isizes::<2>()); v.diag_mut(bad_diag(&d)); }
    panics(10) fn p_into_diag_panics() { let (d, v) = any_view::<R2, 2>(); v.into_diag(bad_diag(&d)); }
    panics(10) fn p_diag_dense_panics() { let (d, v) = any_dense::<R2, 2>(); v.into_diag(bad_diag(&d)); }
    panics(10) fn p_diag_r1_panics() { let (_, v) = any_view::<R1, 1>(); v.diag(nd::isize()); }
    panics(10) fn p_diag_r3_panics() { let (_, v) = any_dense::<R3, 3>(); v.diag(nd::isize()); }
    panics(10) fn b_diag_dyn_panics() { let (_, v) = any_dense::<DynRank, 3>(); v.diag(nd::isize()); }
    panics(10) fn b_row_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); v.row(beyond(d[0])); }
    panics(10) fn b_row_mut_panics() { let (d, mut v) = small_dense::<R2, 2>(1 << 8); v.row_mut(beyond(d[0])); }
    panics(10) fn b_into_row_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); v.into_row(beyond(d[0])); }
    panics(10) fn b_col_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); v.col(beyond(d[1])); }
    panics(10) fn b_col_mut_panics() { let (d, mut v) = small_dense::<R2, 2>(1 << 8); v.col_mut(beyond(d[1])); }
    panics(10) fn b_into_col_panics() { let (d, v) = small_dense::<R2, 2>(1 << 8); v.into_col(beyond(d[1])); }
    panics(10) fn b_row_rank_panics() { let (_, v) = small_dense::<DynRank, 3>(1 << 8); v.row(nd::usize()); }
    panics(10) fn b_col_rank_panics() { let (_, v) = small_dense::<DynRank, 1>(1 << 8); v.col(nd::usize()); }
    panics(10) fn p_rows_rank_panics() { let v = dense::<DynRank>(huge(), &[]); v.rows(); }
    panics(10) fn b_cols_rank_panics() { let (_, v) = any_dense::<DynRank, 1>(); v.cols(); }
    panics(10) fn p_lanes_invalid_panics() { let (_, v) = any_view::<R2, 2>(); v.lanes(beyond(2)); }
    panics(10) fn p_lanes_invalid_mut_panics() { let (_, mut v) = any_dense::<R2, 2>(); v.lanes_mut(beyond(2)); }
    panics(10) fn p_axis_expr_invalid_panics() { let (_, v) = any_view::<R2, 2>(); v.axis_expr(beyond(2)); }
    panics(10) fn p_axis_expr_invalid_mut_panics() { let (_, mut v) = any_dense::<R2, 2>(); v.axis_expr_mut(beyond(2)); }
    panics(10) fn b_outer_expr_panics() { let v = dense::<DynRank>(huge(), &[]); v.outer_expr(); }
    panics(10) fn p_dim_panics() { let (_, v) = any_view::<R2, 2>(); v.dim(beyond(2)); }
    panics(10) fn p_stride_panics() { let (_, v) = any_view::<R2, 2>(); v.stride(beyond(2)); }
    panics(10) fn p_stride_dense_panics() { let (_, v) = any_dense::<R3, 3>(); v.stride(beyond(3)); }
    panics(10) fn b_stride_dyn_panics() { let (_, v) = any_dense::<DynRank, 2>(); v.stride(beyond(2)); }

    // Permutations.
    panics(10) fn p_permute_r1_panics() { let (_, v) = any_view::<R1, 1>(); v.permute(bad_perm::<1>()); }
    panics(10) fn p_permute_r2_panics() { let (_, v) = any_view::<R2, 2>(); v.permute(bad_perm::<2>()); }
    panics(10) fn p_permute_r3_panics() { let (_, v) = any_view::<R3, 3>(); v.permute(bad_perm::<3>()); }
    panics(10) fn p_permute_dense_panics() { let (_, v) = any_dense::<R3, 3>(); v.permute(bad_perm::<3>()); }
    panics(10) fn p_permute_mut_panics() { let (_, mut v) = any_dense::<R2, 2>(); v.permute_mut(bad_perm::<2>()); }
    panics(10) fn p_into_permuted_panics() { let (_, v) = any_dense::<R2, 2>(); v.into_permuted(bad_perm::<2>()); }
    panics(10) fn b_permute_dyn_panics() { let (_, v) = any_view::<DynRank, 3>(); v.permute(&bad_perm::<3>()[..]); }
    panics(10) fn b_permute_short_panics() { let (_, v) = any_view::<DynRank, 3>(); v.permute(&nd::usizes::<2>()[..]); }
    panics(10) fn b_permute_long_panics() { let (_, v) = any_dense::<DynRank, 2>(); v.permute(&nd::usizes::<3>()[..]); }
    panics(10) fn p_permute_rank_panics() { let (_, v) = any_view::<R2, 2>(); v.permute(nd::usizes::<3>()); }
    panics(10) fn p_permute_rank_less_panics() { let (_, v) = any_view::<R3, 3>(); v.permute(nd::usizes::<2>()); }
    panics(10) fn p_permute_const_panics() { let (_, v) = any_view::<R2, 2>(); v.permute((Const::<0>, Const::<0>)); }

    // Shapes and lengths.
    panics(12) fn b_reshape_r2_panics() { let v = dense::<R2>(huge(), &[3, 4]); v.reshape(bad_shape::<2>(12, 1 << 16)); }
    panics(12) fn b_reshape_r1_panics() { let d = nd::upto(1 << 31); let v = dense::<R1>(huge(), &[d]); v.reshape(bad_shape::<1>(d, 1 << 31)); }
    panics(12) fn b_reshape_mut_panics() { let mut v = dense_mut::<R2>(huge(), &[3, 4]); v.reshape_mut(bad_shape::<3>(12, 1 << 8)); }
    panics(12) fn b_into_shape_panics() { let v = dense_mut::<R2>(huge(), &[3, 4]); v.into_shape(bad_shape::<1>(12, 1 << 16)); }
    panics(12) fn b_reshape_strided_panics() { let v = strided::<R2>(huge(), &[3, 4], &nd::within_n::<2>(100)); v.reshape(bad_shape::<1>(12, 1 << 16)); }
    panics(12) fn b_reshape_strided_r2_panics() { let v = strided::<R2>(huge(), &[3, 4], &[4, 1]); v.reshape(bad_shape::<2>(12, 1 << 8)); }
    panics(12) fn b_reshape_infer_panics() {
        let d = nd::usize();
        nd::assume(d != usize::MAX && (d == 0 || 12 % d != 0));
        dense::<R2>(huge(), &[3, 4]).reshape([d, usize::MAX]);
    }
    panics(12) fn b_reshape_infer_two_panics() { dense::<R2>(huge(), &[3, 4]).reshape([usize::MAX, nd::upto(100), usize::MAX]); }
    panics(12) fn b_tensor_reshape_panics() { let t = tensor![[1u8, 2, 3], [4, 5, 6]]; let s = bad_shape::<2>(6, 1 << 8); let _ = std::mem::ManuallyDrop::new(t.into_shape(s)); }
    panics(12) fn b_array_reshape_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; a.into_shape::<(Const<2>, Const<2>)>(); }
    panics(12) fn b_array_reshape_larger_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; a.into_shape::<(Const<7>,)>(); }
    panics(12) fn b_array_scalar_panics() { let a = array![[1u8, 2, 3], [4, 5, 6]]; a.into_scalar(); }
    panics(12) fn b_tensor_scalar_panics() { let a = tensor![1u8, 2]; a.into_scalar(); }
    panics(12) fn b_tensor_scalar_empty_panics() { let a = Tensor::<u8, R1>::new(); a.into_scalar(); }
    panics(12) fn b_flatten_strided_panics() {
        let s = nd::within(100);
        nd::assume(s != 4 && s != 0);
        strided::<R2>(huge(), &[3, 4], &[s, 1]).flatten();
    }
    panics(34) fn p_remap_strided_panics() {
        let s = nd::isizes::<2>();
        nd::assume(s != [4, 1]);
        strided::<R2>(huge(), &[3, 4], &s).remap::<R2, Dense>();
    }
    panics(34) fn p_remap_strided_mut_panics() {
        let s = nd::isizes::<2>();
        nd::assume(s != [4, 1]);
        strided_mut::<R2>(huge(), &[3, 4], &s).remap_mut::<R2, Dense>();
    }
    panics(34) fn p_into_mapping_panics() {
        let s = nd::isizes::<1>();
        nd::assume(s != [1]);
        strided_mut::<R1>(huge(), &[3], &s).into_mapping::<R1, Dense>();
    }
    panics(12) fn p_remap_const_panics() {
        let n = nd::usize();
        nd::assume(n != 3);
        dense::<R1>(huge(), &[n]).remap::<(Const<3>,), Dense>();
    }
    panics(12) fn p_remap_const2_panics() {
        let d = nd::usizes::<2>();
        nd::assume(d[1] != 3);
        dense::<R2>(huge(), &d).into_mapping::<(Dyn, Const<3>), Dense>();
    }
    panics(12) fn b_remap_rank_panics() { let (_, v) = any_view::<DynRank, 2>(); v.remap::<R3, Strided>(); }
    panics(12) fn b_into_rank_panics() { let (_, v) = any_dense::<DynRank, 2>(); v.into_mapping::<R1, Dense>(); }
    panics(12) fn b_tensor_mapping_panics() { let t = tensor![[1u8, 2], [3, 4]].into_dyn(); t.into_mapping::<R1>(); }
    panics(12) fn b_tensor_mapping_const_panics() { let t = tensor![[1u8, 2], [3, 4]]; t.into_mapping::<(Dyn, Const<3>)>(); }
    panics(12) fn p_mapping_new_panics() { let _ = StridedMapping::new(shape::<R2>(&nd::usizes::<2>()), &nd::isizes::<3>()); }
    panics(12) fn p_mapping_new_less_panics() { let _ = StridedMapping::new(shape::<R2>(&nd::usizes::<2>()), &nd::isizes::<1>()); }
    panics(12) fn p_shape_const_panics() {
        let d = nd::usizes::<2>();
        nd::assume(d[0] != 3);
        let _ = <(Const<3>, Dyn)>::from_dims(&d);
    }
    panics(12) fn p_shape_rank_panics() { let _ = R2::from_dims(&nd::usizes::<3>()); }
    panics(12) fn p_shape_rank_less_panics() { let _ = R2::from_dims(&nd::usizes::<1>()); }

    // Lengths that overflow.
    panics(12) fn b_from_elem_len_panics() { let n = nd::upto(1 << 20); let _ = from_elem([1usize << 63, 2 + n], 1u8); }
    panics(12) fn b_from_elem_len3_panics() { let _ = from_elem([1usize << 32, 1 << 31, 2 + nd::upto(100)], 1u8); }
    panics(12) fn b_from_fn_len_panics() { let n = nd::upto(1 << 20); let _ = from_fn([2 + n, 1usize << 63], |_: &[usize]| 1u8); }
    panics(12) fn b_tensor_from_elem_len_panics() { let _ = Tensor::from_elem([1usize << 63, 2], ()); }
    panics(12) fn b_tensor_from_fn_len_panics() { let _ = Tensor::from_fn([1usize << 62, 4], |_| ()); }
    panics(12) fn b_resize_len_panics() { let mut t = Tensor::<(), R2>::new(); t.resize(&[1usize << 63, 2], ()); }
    panics(12) fn b_resize_rank_panics() { let mut t = Tensor::<u8, R2>::new(); t.resize(&nd::upto_n::<3>(10), 1); }
    panics(12) fn b_array_fill_len_panics() { let t = from_elem((Const::<{ 1 << 63 }>, 2usize), ()); drop(t); }

    // Tensor operations.
    panics(34) fn b_drain_panics() { let mut t = tensor![1u8, 2, 3]; let r = bad_range(3); t.drain(r); }
    panics(34) fn b_drain_bounds_panics() { let mut t = tensor![[1u8, 2], [3, 4]]; let r = bad_bounds(2); t.drain(r); }
    panics(34) fn b_drain_rank_panics() { let mut t = Tensor::<u8, R0>::from_elem((), 1); t.drain(..); }
    panics(34) fn b_expand_inner_panics() { let mut t = tensor![[1u8, 2], [3, 4]]; t.expand(array![[1u8, 2, 3]]); }
    panics(34) fn b_expand_rank_panics() { let mut t = tensor![[1u8, 2], [3, 4]]; t.expand(array![1u8, 2]); }
    panics(34) fn b_append_inner_panics() { let mut t = tensor![[1u8, 2], [3, 4]]; t.append(&mut tensor![[1u8], [2]]); }
    panics(34) fn b_truncate_const_panics() { let mut t = tensor![[1u8, 2]].into_mapping::<(Const<1>, Dyn)>(); t.truncate(0); }
    panics(34) fn b_clear_const_panics() { let mut t = tensor![[1u8, 2]].into_mapping::<(Const<1>, Const<2>)>(); t.clear(); }

    // Expressions.
    panics(34) fn p_zip_r1_panics() { let (d, v) = any_view::<R1, 1>(); let e = nd::usizes::<1>(); nd::assume(d != e); v.expr().zip(dense::<R1>(huge(), &e)); }
    panics(34) fn p_zip_r2_panics() { let (d, v) = any_view::<R2, 2>(); let e = nd::usizes::<2>(); nd::assume(d != e); v.expr().zip(dense::<R2>(huge(), &e)); }
    panics(34) fn p_zip_r2_r1_panics() { let (d, v) = any_view::<R2, 2>(); let e = nd::usizes::<1>(); nd::assume(d[1] != e[0]); v.expr().zip(dense::<R1>(huge(), &e)); }
    panics(34) fn p_zip_r1_r3_panics() { let (d, v) = any_view::<R1, 1>(); let e = nd::usizes::<3>(); nd::assume(d[0] != e[2]); v.expr().zip(dense::<R3>(huge(), &e)); }
    panics(34) fn p_assign_panics() { let (d, mut v) = any_view::<R1, 1>(); let e = nd::usizes::<1>(); nd::assume(d != e); v.assign(dense::<R1>(huge(), &e)); }
    panics(34) fn p_assign_rank_panics() { let (_, mut v) = any_view::<R1, 1>(); let e = nd::usizes::<2>(); v.assign(dense::<R2>(huge(), &e)); }
    panics(34) fn b_add_assign_panics() { let mut a = array![1u8, 2, 3]; a += array![1u8, 2]; }
    panics(34) fn b_tensor_add_panics() { let t = tensor![1u8, 2, 3] + array![1u8, 2]; drop(t); }
    panics(34) fn b_array_add_panics() { let t = array![1u8, 2, 3] + array![1u8, 2]; drop(t); }
    panics(34) fn b_zip_lanes_panics() { let (d, v) = small_view::<R2, 2>(100); let e = nd::upto(100); nd::assume(e != d[0]); v.lanes(Const::<1>).zip(dense::<R1>(huge(), &[e])); }
}
