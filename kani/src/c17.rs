//! C17: writes through mutable views.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::index::*;
use mdarray::*;

const SIZE: usize = 64;

fn memory() -> [u8; SIZE] {
    let mut m = [0; SIZE];
    m.copy_from_slice(&BUF[..SIZE]);
    m
}

fn abs(x: isize) -> isize {
    if x < 0 { -x } else { x }
}

/// Exactly the given positions have changed, to the given values.
fn changed(m: &[u8; SIZE], start: usize, writes: &[(isize, u8)]) {
    let k = nd::usize();
    nd::assume(k < SIZE);
    let mut want = k as u8;
    for w in writes {
        if start as isize + w.0 == k as isize {
            want = w.1;
        }
    }
    assert!(m[k] == want);
}

/// Runs `f` on a strided array in memory; it returns where it has written and what.
fn strided_in<S: Shape, const N: usize, const K: usize>(d: [usize; N], f: impl FnOnce(&mut Slice<u8, S, Strided>, [usize; N], [isize; N]) -> [(isize, u8); K]) {
    let s = nd::within_n::<N>(31);
    let mut span = 0;
    for i in 0..N {
        if d[i] > 0 {
            span += abs(s[i]) * (d[i] as isize - 1);
        }
    }
    nd::assume(span < 32);
    let mut m = memory();
    let w = f(&mut strided_mut::<S>(unsafe { m.as_mut_ptr().add(32) }, &d, &s), d, s);
    changed(&m, 32, &w);
}

/// The same on a dense array.
fn dense_in<S: Shape, const N: usize, const K: usize>(d: [usize; N], f: impl FnOnce(&mut Slice<u8, S>, [usize; N], [isize; N]) -> [(isize, u8); K]) {
    let mut m = memory();
    let w = f(&mut dense_mut::<S>(unsafe { m.as_mut_ptr().add(8) }, &d), d, row_major(&d));
    changed(&m, 8, &w);
}

/// Where the elements of two views can be the same, given that those of the parent are distinct.
fn apart(a: (isize, u8), b: (isize, u8)) -> [(isize, u8); 2] {
    assert!(a.0 != b.0);
    [a, b]
}

/// Writes to an element of a view of the given strides at the given start.
macro_rules! put {
    ($v:expr, $start:expr, $d:expr, $s:expr) => {{
        let d = $d;
        let i = any_index(&d);
        let x = nd::u8();
        $v[i] = x;
        ($start + addr(&$s, &i), x)
    }};
}


type W = (isize, u8);

/// An element of the array itself.
fn element<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) -> [W; 1] {
    [put!(v, 0, d, s)]
}

fn element_unchecked<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) -> [W; 1] {
    let (i, x) = (any_index(&d), nd::u8());
    unsafe { *v.get_unchecked_mut(i) = x };
    [(addr(&s, &i), x)]
}

fn element_linear<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], checked: bool) -> [W; 1] {
    let (n, x) = (nd::usize(), nd::u8());
    nd::assume(n < len(&d));
    if checked {
        v[n] = x;
    } else {
        unsafe { *v.get_unchecked_mut(n) = x };
    }
    [(addr(&s, &unlinear(&d, n)), x)]
}

/// Both parts of a split are written.
fn split<S: Shape, L: Layout, A: Axis, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize) -> [W; 2] {
    let mid = nd::usize();
    nd::assume(0 < mid && mid < d[x]);
    let (mut a, mut b) = v.split_axis_at_mut(axis, mid);
    let (mut e, mut f) = (d, d);
    e[x] = mid;
    f[x] = d[x] - mid;
    let w = put!(a, 0, e, s);
    [w, put!(b, s[x] * mid as isize, f, s)]
}

/// The parts of a split of any size are disjoint: elements of them are at different positions.
fn split_apart<S: Shape, A: Axis, const N: usize>(d: [usize; N], axis: A, x: usize) {
    let base = huge();
    let mut v = dense_mut::<S>(base, &d);
    let mid = nd::usize();
    nd::assume(0 < mid && mid < d[x]);
    let (mut a, mut b) = v.split_axis_at_mut(axis, mid);
    let (mut e, mut f) = (d, d);
    e[x] = mid;
    f[x] = d[x] - mid;
    let (i, j) = (any_index(&e), any_index(&f));
    assert!(&mut a[i] as *mut u8 != &mut b[j] as *mut u8);
}

fn axis_at<S: Shape, L: Layout, A: Axis, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize) -> [W; 1] {
    let i = nd::usize();
    nd::assume(i < d[x]);
    [put!(v.axis_at_mut(axis, i), s[x] * i as isize, without::<_, N, K>(&d, x), without::<_, N, K>(&s, x))]
}

/// Two items of a mutable axis expression, held at the same time.
fn axis_items<S: Shape, L: Layout, A: Axis, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], axis: A, x: usize) -> [W; 2] {
    let (e, t) = (without::<_, N, K>(&d, x), without::<_, N, K>(&s, x));
    let mut it = v.axis_expr_mut(axis).into_iter();
    let mut a = it.next().unwrap();
    let mut b = it.next().unwrap();
    let w = put!(a, 0, e, t);
    [w, put!(b, s[x], e, t)]
}

/// Two lanes, held at the same time.
fn lane_items<S: Shape, L: Layout, A: Axis, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; 2], s: [isize; 2], axis: A, x: usize) -> [W; 2] {
    let mut it = v.lanes_mut(axis).into_iter();
    let mut a = it.next().unwrap();
    let mut b = it.next().unwrap();
    let w = put!(a, 0, [d[x]], [s[x]]);
    [w, put!(b, s[1 - x], [d[x]], [s[x]])]
}

/// Every item of the mutable iterator refers to its own element, also when all are held.
fn items<S: Shape, L: Layout, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N], next: bool) -> [W; K] {
    let mut w = [(0, 0); K];
    let mut n = 0;
    let put = |n: usize, x: &mut u8, w: &mut [W; K]| {
        let y = nd::u8();
        *x = y;
        w[n] = (addr(&s, &unlinear(&d, n)), y);
    };
    if next {
        let mut it = v.iter_mut();
        while let Some(x) = it.next() {
            put(n, x, &mut w);
            n += 1;
        }
    } else {
        v.expr_mut().for_each(|x| {
            put(n, x, &mut w);
            n += 1;
        });
    }
    assert!(n == K);
    w
}

/// Two items of a mutable iterator, held at the same time.
fn two_items<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) -> [W; 2] {
    let mut it = v.iter_mut();
    let a = it.next().unwrap();
    let b = it.next().unwrap();
    let (x, y) = (nd::u8(), nd::u8());
    *a = x;
    *b = y;
    [(0, x), (addr(&s, &unlinear(&d, 1)), y)]
}

fn permuted<const N: usize, T: Copy + Default>(p: &[usize; N], a: &[T; N]) -> [T; N] {
    let mut r = [T::default(); N];
    for i in 0..N {
        r[i] = a[p[i]];
    }
    r
}

/// Filling a subarray changes its elements and no others.
fn filled<const K: usize>(v: &mut [u8; SIZE], start: usize, at: [isize; K], x: u8) {
    changed(v, start, &at.map(|p| (p, x)))
}

proofs! {
    // Elements.
    holds(7) fn b_index_s_r1() { strided_in::<R1, 1, 1>([5], element) }
    holds(7) fn b_index_s_r2() { strided_in::<R2, 2, 1>([3, 4], element) }
    holds(7) fn b_index_s_r3() { strided_in::<R3, 3, 1>([3, 2, 2], element) }
    holds(7) fn b_index_s_r6() { strided_in::<R6, 6, 1>([2, 1, 2, 2, 1, 2], element) }
    holds(7) fn b_index_s_dyn() { strided_in::<DynRank, 2, 1>([3, 4], element) }
    holds(7) fn b_index_d_r0() { dense_in::<R0, 0, 1>([], element) }
    holds(7) fn b_index_d_r1() { dense_in::<R1, 1, 1>([5], element) }
    holds(7) fn b_index_d_r2() { dense_in::<R2, 2, 1>([3, 4], element) }
    holds(7) fn b_index_d_r3() { dense_in::<R3, 3, 1>([3, 2, 2], element) }
    holds(7) fn b_index_d_r4() { dense_in::<R4, 4, 1>([3, 2, 1, 2], element) }
    holds(7) fn b_index_d_r5() { dense_in::<R5, 5, 1>([2, 2, 1, 2, 3], element) }
    holds(7) fn b_index_d_r6() { dense_in::<R6, 6, 1>([2, 2, 1, 2, 1, 3], element) }
    holds(7) fn b_index_d_const() { dense_in::<(Const<3>, Dyn, Const<2>), 3, 1>([3, 4, 2], element) }
    holds(7) fn b_index_d_dyn() { dense_in::<DynRank, 3, 1>([3, 2, 2], element) }
    holds(7) fn b_unchecked_s() { strided_in::<R2, 2, 1>([3, 4], element_unchecked) }
    holds(7) fn b_unchecked_d() { dense_in::<R3, 3, 1>([3, 2, 2], element_unchecked) }
    holds(7) fn b_linear_s() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| element_linear(v, d, s, true)) }
    holds(7) fn b_linear_s_r1() { strided_in::<R1, 1, 1>([5], |v, d, s| element_linear(v, d, s, true)) }
    holds(7) fn b_linear_s_u() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| element_linear(v, d, s, false)) }
    holds(7) fn b_linear_d() { dense_in::<R3, 3, 1>([3, 2, 2], |v, d, s| element_linear(v, d, s, true)) }
    holds(7) fn b_linear_d_u() { dense_in::<R3, 3, 1>([3, 2, 2], |v, d, s| element_linear(v, d, s, false)) }
    holds(7) fn b_linear_dyn() { dense_in::<DynRank, 2, 1>([3, 4], |v, d, s| element_linear(v, d, s, true)) }
    holds(7) fn b_range() {
        dense_in::<R2, 2, 1>([3, 4], |v, _, _| {
            let (a, b) = (nd::upto(12), nd::upto(12));
            nd::assume(a < b);
            let (i, x) = (nd::usize(), nd::u8());
            nd::assume(i < b - a);
            v[a..b][i] = x;
            [((a + i) as isize, x)]
        })
    }
    holds(7) fn b_slice() {
        dense_in::<R1, 1, 1>([12], |v, _, _| {
            let (i, x) = (nd::usize(), nd::u8());
            nd::assume(i < 12);
            let r: &mut [u8] = v.as_mut();
            assert!(r.len() == 12);
            r[i] = x;
            [(i as isize, x)]
        })
    }
    holds(7) fn b_into_slice() {
        dense_in::<R2, 2, 1>([3, 4], |v, _, _| {
            let (i, x) = (nd::usize(), nd::u8());
            nd::assume(i < 12);
            let r: &mut [u8] = v.flatten_mut().into();
            assert!(r.len() == 12);
            r[i] = x;
            [(i as isize, x)]
        })
    }
    holds(7) fn b_raw() {
        strided_in::<R2, 2, 1>([3, 4], |v, _, _| {
            let x = nd::u8();
            unsafe { *v.as_mut_ptr() = x };
            [(0, x)]
        })
    }
    holds(7) fn b_expr_mut() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| [put!(v.expr_mut(), 0, d, s)]) }

    // Subarrays.
    holds(7) fn b_view_s_range() {
        strided_in::<R2, 2, 1>([3, 4], |v, _, s| {
            let (a, b) = (nd::upto(4), nd::upto(4));
            nd::assume(a < b);
            [put!(v.view_mut(1.., a..b), s[0] + s[1] * a as isize, [2, b - a], s)]
        })
    }
    holds(7) fn b_view_s_at() {
        strided_in::<R2, 2, 1>([3, 4], |v, _, s| {
            let i = nd::usize();
            nd::assume(i < 4);
            [put!(v.view_mut(.., i), s[1] * i as isize, [3], [s[0]])]
        })
    }
    holds(7) fn b_view_s_step() {
        strided_in::<R2, 2, 1>([3, 4], |v, _, s| {
            [put!(v.view_mut(step(.., -1), step(1.., 2)), s[0] * 2 + s[1], [3, 2], [-s[0], s[1] * 2])]
        })
    }
    holds(7) fn b_view_d_range() {
        dense_in::<R2, 2, 1>([3, 4], |v, _, s| {
            let (a, b) = (nd::upto(3), nd::upto(3));
            nd::assume(a < b);
            [put!(v.view_mut(a..b, ..), s[0] * a as isize, [b - a, 4], s)]
        })
    }
    holds(7) fn b_view_d_inner() {
        dense_in::<R2, 2, 1>([3, 4], |v, _, s| {
            let (a, b) = (nd::upto(4), nd::upto(4));
            nd::assume(a < b);
            [put!(v.view_mut(.., a..b), a as isize, [3, b - a], s)]
        })
    }
    holds(7) fn b_view_d_at() {
        dense_in::<R3, 3, 1>([3, 2, 2], |v, _, s| {
            let i = nd::usize();
            nd::assume(i < 2);
            [put!(v.view_mut(1.., i, ..), s[0] + s[1] * i as isize, [2, 2], [s[0], s[2]])]
        })
    }
    holds(7) fn b_view_d_step() {
        dense_in::<R1, 1, 1>([12], |v, _, _| {
            [put!(v.view_mut(step(1..10, -3)), 9, [3], [-3])]
        })
    }
    holds(7) fn b_view_d_const() { dense_in::<(Const<3>, Const<4>), 2, 1>([3, 4], |v, _, s| [put!(v.view_mut(1..=2, ..), 4, [2, 4], s)]) }
    holds(14) fn b_view_fill() {
        let (mut m, x) = (memory(), nd::u8());
        dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]).view_mut(1.., 1..3).fill(x);
        filled(&mut m, 8, [5, 6, 9, 10], x);
    }
    holds(14) fn b_view_step_fill() {
        let (mut m, x) = (memory(), nd::u8());
        dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]).view_mut(step(.., 2), step(1.., -2)).fill(x);
        filled(&mut m, 8, [1, 3, 9, 11], x);
    }
    holds(14) fn b_empty_fill() {
        let (mut m, x) = (memory(), nd::u8());
        dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]).view_mut(.., 2..2).fill(x);
        dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]).view_mut(3.., ..).fill(x);
        let (mut a, _) = (dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]), 0);
        a.split_at_mut(3).1.fill(x);
        a.split_axis_at_mut(Const::<1>, 0).0.fill(x);
        filled(&mut m, 8, [], x);
    }
    holds(14) fn b_fill_with() {
        let (mut m, x) = (memory(), nd::u8());
        let mut n = 0u8;
        dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]).col_mut(2).fill_with(|| { n += 1; x.wrapping_add(n) });
        changed(&m, 8, &[(2, x.wrapping_add(1)), (6, x.wrapping_add(2)), (10, x.wrapping_add(3))]);
    }
    holds(14) fn b_assign() {
        let (mut m, x) = (memory(), [nd::u8(), nd::u8(), nd::u8()]);
        dense_mut::<R2>(unsafe { m.as_mut_ptr().add(8) }, &[3, 4]).diag_mut(-1).view_mut(..).assign(&View::<u8, R1>::from(&x[..2]));
        changed(&m, 8, &[(4, x[0]), (9, x[1])]);
    }

    // Splits.
    holds(7) fn b_split_s_r1() { strided_in::<R1, 1, 2>([5], |v, d, s| split(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_split_s_r2_0() { strided_in::<R2, 2, 2>([3, 4], |v, d, s| split(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_split_s_r2_1() { strided_in::<R2, 2, 2>([3, 4], |v, d, s| split(v, d, s, Const::<1>, 1)) }
    holds(7) fn b_split_s_dynaxis() { strided_in::<R2, 2, 2>([3, 4], |v, d, s| split(v, d, s, 1usize, 1)) }
    holds(7) fn b_split_d_r1() { dense_in::<R1, 1, 2>([12], |v, d, s| split(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_split_d_r2_0() { dense_in::<R2, 2, 2>([3, 4], |v, d, s| split(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_split_d_r2_1() { dense_in::<R2, 2, 2>([3, 4], |v, d, s| split(v, d, s, Const::<1>, 1)) }
    holds(7) fn b_split_d_rows() { dense_in::<R2, 2, 2>([3, 4], |v, d, s| split(v, d, s, Rows, 1)) }
    holds(7) fn b_split_d_cols() { dense_in::<R3, 3, 2>([2, 3, 2], |v, d, s| split(v, d, s, Cols, 1)) }
    holds(7) fn b_split_d_r3_1() { dense_in::<R3, 3, 2>([2, 3, 2], |v, d, s| split(v, d, s, Const::<1>, 1)) }
    holds(7) fn b_split_d_r3_2() { dense_in::<R3, 3, 2>([2, 2, 3], |v, d, s| split(v, d, s, Const::<2>, 2)) }
    holds(7) fn b_split_d_r4_2() { dense_in::<R4, 4, 2>([2, 1, 3, 2], |v, d, s| split(v, d, s, Const::<2>, 2)) }
    holds(7) fn b_split_d_r4_1() { dense_in::<R4, 4, 2>([2, 3, 1, 2], |v, d, s| split(v, d, s, 1usize, 1)) }
    holds(7) fn b_split_dyn() { dense_in::<DynRank, 2, 2>([3, 4], |v, d, s| split(v, d, s, 0usize, 0)) }
    holds(7) fn b_split_dyn_c() { dense_in::<DynRank, 2, 2>([3, 4], |v, d, s| split(v, d, s, Const::<1>, 1)) }
    holds(7) fn b_split_into() {
        dense_in::<R2, 2, 2>([3, 4], |v, _, s| {
            let (mut a, mut b) = v.expr_mut().into_split_axis_at(Const::<1>, 3);
            let w = put!(a, 0, [3, 3], s);
            [w, put!(b, 3, [3, 1], s)]
        })
    }
    holds(7) fn b_split_apart_r1() { split_apart::<R1, _, 1>(nd::upto_n(1 << 20), Const::<0>, 0) }
    holds(7) fn b_split_apart_r2_0() { split_apart::<R2, _, 2>(nd::upto_n(1 << 4), Const::<0>, 0) }
    holds(7) fn b_split_apart_r2_1() { split_apart::<R2, _, 2>(nd::upto_n(1 << 4), Const::<1>, 1) }

    // Subarrays along an axis.
    holds(7) fn b_axis_s_r2_0() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| axis_at::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_axis_s_r2_1() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| axis_at::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1)) }
    holds(7) fn b_axis_d_r1() { dense_in::<R1, 1, 1>([5], |v, d, s| axis_at::<_, _, _, 1, 0>(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_axis_d_r2_0() { dense_in::<R2, 2, 1>([3, 4], |v, d, s| axis_at::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0)) }
    holds(7) fn b_axis_d_r2_1() { dense_in::<R2, 2, 1>([3, 4], |v, d, s| axis_at::<_, _, _, 2, 1>(v, d, s, Rows, 1)) }
    holds(7) fn b_axis_d_r3_1() { dense_in::<R3, 3, 1>([2, 3, 2], |v, d, s| axis_at::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1)) }
    holds(7) fn b_axis_d_r3_2() { dense_in::<R3, 3, 1>([2, 2, 3], |v, d, s| axis_at::<_, _, _, 3, 2>(v, d, s, 2usize, 2)) }
    holds(7) fn b_axis_dyn() { dense_in::<DynRank, 2, 1>([3, 4], |v, d, s| axis_at::<_, _, _, 2, 1>(v, d, s, 1usize, 1)) }
    holds(7) fn b_at_mut() { dense_in::<R3, 3, 1>([3, 2, 2], |v, _, s| [put!(v.at_mut(2), s[0] * 2, [2, 2], [s[1], s[2]])]) }
    holds(7) fn b_row_mut() {
        strided_in::<R2, 2, 1>([3, 4], |v, d, s| {
            let i = nd::usize();
            nd::assume(i < 3);
            [put!(v.row_mut(i), s[0] * i as isize, [d[1]], [s[1]])]
        })
    }
    holds(7) fn b_col_mut() {
        strided_in::<R2, 2, 1>([3, 4], |v, d, s| {
            let i = nd::usize();
            nd::assume(i < 4);
            [put!(v.col_mut(i), s[1] * i as isize, [d[0]], [s[0]])]
        })
    }
    holds(7) fn b_row_mut_d() { dense_in::<R2, 2, 1>([3, 4], |v, _, _| [put!(v.row_mut(2), 8, [4], [1])]) }
    holds(7) fn b_col_mut_d() { dense_in::<R2, 2, 1>([3, 4], |v, _, _| [put!(v.col_mut(3), 3, [3], [4])]) }
    holds(7) fn b_diag_mut() {
        strided_in::<R2, 2, 1>([3, 4], |v, _, s| {
            let i = nd::usize();
            nd::assume(i < 3);
            let n = if i == 0 { 3 } else { 4 - i };
            [put!(v.diag_mut(i as isize), s[1] * i as isize, [n], [s[0] + s[1]])]
        })
    }
    holds(7) fn b_diag_mut_low() {
        dense_in::<R2, 2, 1>([4, 3], |v, _, s| {
            let i = nd::usize();
            nd::assume(0 < i && i < 4);
            let n = 4 - i;
            [put!(v.diag_mut(-(i as isize)), s[0] * i as isize, [n], [s[0] + s[1]])]
        })
    }
    holds(8) fn b_axis_items_s0() { strided_in::<R2, 2, 2>([3, 2], |v, d, s| axis_items::<_, _, _, 2, 1>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_axis_items_s1() { strided_in::<R2, 2, 2>([3, 2], |v, d, s| axis_items::<_, _, _, 2, 1>(v, d, s, Const::<1>, 1)) }
    holds(8) fn b_axis_items_d0() { dense_in::<R3, 3, 2>([3, 2, 2], |v, d, s| axis_items::<_, _, _, 3, 2>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_axis_items_d1() { dense_in::<R3, 3, 2>([3, 2, 2], |v, d, s| axis_items::<_, _, _, 3, 2>(v, d, s, Const::<1>, 1)) }
    holds(8) fn b_axis_items_d2() { dense_in::<R3, 3, 2>([3, 2, 2], |v, d, s| axis_items::<_, _, _, 3, 2>(v, d, s, 2usize, 2)) }
    holds(8) fn b_lane_items_s0() { strided_in::<R2, 2, 2>([3, 2], |v, d, s| lane_items::<_, _, _, 2>(v, d, s, Const::<0>, 0)) }
    holds(8) fn b_lane_items_s1() { strided_in::<R2, 2, 2>([3, 2], |v, d, s| lane_items::<_, _, _, 2>(v, d, s, Const::<1>, 1)) }
    holds(8) fn b_lane_items_d0() { dense_in::<R2, 2, 2>([3, 2], |v, d, s| lane_items::<_, _, _, 2>(v, d, s, Cols, 0)) }
    holds(8) fn b_lane_items_d1() { dense_in::<R2, 2, 2>([3, 2], |v, d, s| lane_items::<_, _, _, 2>(v, d, s, Rows, 1)) }

    // Permuted and reshaped arrays.
    holds(7) fn b_permute_s() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| [put!(v.permute_mut([1, 0]), 0, permuted(&[1, 0], &d), permuted(&[1, 0], &s))]) }
    holds(7) fn b_permute_d() { dense_in::<R3, 3, 1>([3, 2, 2], |v, d, s| [put!(v.permute_mut([2, 0, 1]), 0, permuted(&[2, 0, 1], &d), permuted(&[2, 0, 1], &s))]) }
    holds(7) fn b_permute_const() { dense_in::<R3, 3, 1>([3, 2, 2], |v, d, s| [put!(v.permute_mut((Const::<1>, Const::<2>, Const::<0>)), 0, permuted(&[1, 2, 0], &d), permuted(&[1, 2, 0], &s))]) }
    holds(7) fn b_reorder_s() { strided_in::<R2, 2, 1>([3, 4], |v, d, s| [put!(v.reorder_mut(), 0, permuted(&[1, 0], &d), permuted(&[1, 0], &s))]) }
    holds(7) fn b_reorder_d() { dense_in::<R3, 3, 1>([3, 2, 2], |v, d, s| [put!(v.reorder_mut(), 0, permuted(&[2, 1, 0], &d), permuted(&[2, 1, 0], &s))]) }
    holds(7) fn b_remap_s() { dense_in::<R2, 2, 1>([3, 4], |v, d, s| [put!(v.remap_mut::<DynRank, Strided>(), 0, d, s)]) }
    holds(7) fn b_remap_c() { dense_in::<R2, 2, 1>([3, 4], |v, d, s| [put!(v.remap_mut::<(Const<3>, Dyn), Dense>(), 0, d, s)]) }
    holds(7) fn b_reshape_d() { dense_in::<R2, 2, 1>([3, 4], |v, _, _| [put!(v.reshape_mut([2, 3, 2]), 0, [2, 3, 2], [6, 2, 1])]) }
    holds(7) fn b_reshape_auto() { dense_in::<R2, 2, 1>([3, 4], |v, _, _| [put!(v.reshape_mut([usize::MAX, 2]), 0, [6, 2], [2, 1])]) }
    holds(7) fn b_reshape_s() {
        strided_in::<R1, 1, 1>([6], |v, _, s| [put!(v.reshape_mut([2, 3]), 0, [2, 3], [3 * s[0], s[0]])])
    }
    holds(7) fn b_flatten_d() { dense_in::<R2, 2, 1>([3, 4], |v, _, _| [put!(v.flatten_mut(), 0, [12], [1])]) }
    holds(7) fn b_into_dyn() { dense_in::<R2, 2, 1>([3, 4], |v, d, s| [put!(v.expr_mut().into_dyn(), 0, d, s)]) }

    // Iterators.
    holds(14) fn b_items_s_r1() { strided_in::<R1, 1, 4>([4], |v, d, s| items(v, d, s, true)) }
    holds(14) fn b_items_s_r2() { strided_in::<R2, 2, 4>([2, 2], |v, d, s| items(v, d, s, true)) }
    holds(14) fn b_items_s_fold() { strided_in::<R2, 2, 4>([2, 2], |v, d, s| items(v, d, s, false)) }
    holds(14) fn b_items_d_r2() { dense_in::<R2, 2, 6>([3, 2], |v, d, s| items(v, d, s, true)) }
    holds(14) fn b_items_d_r3() { dense_in::<R3, 3, 12>([2, 3, 2], |v, d, s| items(v, d, s, true)) }
    holds(14) fn b_items_d_fold() { dense_in::<R3, 3, 12>([2, 3, 2], |v, d, s| items(v, d, s, false)) }
    holds(14) fn b_items_dyn() { dense_in::<DynRank, 2, 4>([2, 2], |v, d, s| items(v, d, s, true)) }
    holds(14) fn b_two_items_d() { dense_in::<R2, 2, 2>([3, 4], two_items) }
    holds(14) fn b_two_items_s() { strided_in::<R2, 2, 2>([3, 1], two_items) }

    // Owned arrays.
    holds(34) fn b_tensor() {
        let x = nd::u8();
        let i = any_index(&[2, 3]);
        let mut t = tensor![[0u8, 1, 2], [3, 4, 5]];
        t[i] = x;
        let j = any_index(&[2, 3]);
        assert!(t[j] == if i == j { x } else { linear(&[2, 3], &j) as u8 });
    }
    holds(34) fn b_array() {
        let x = nd::u8();
        let i = any_index(&[2, 3]);
        let mut t = array![[0u8, 1, 2], [3, 4, 5]];
        t[i] = x;
        let j = any_index(&[2, 3]);
        assert!(t[j] == if i == j { x } else { linear(&[2, 3], &j) as u8 });
    }
    holds(34) fn b_tensor_view() {
        let (x, y) = (nd::u8(), nd::u8());
        let mut t = tensor![[0u8, 1, 2], [3, 4, 5]];
        let (mut a, mut b) = t.split_axis_at_mut(Const::<1>, 1);
        a[[1, 0]] = x;
        b[[0, 1]] = y;
        let j = any_index(&[2, 3]);
        assert!(t[j] == if j == [1, 0] { x } else if j == [0, 2] { y } else { linear(&[2, 3], &j) as u8 });
    }
    holds(14) fn b_wide_elements() {
        let x = nd::u64();
        let i = any_index(&[2, 3]);
        let mut m = [7u64; 8];
        let mut v = ViewMut::<u64, R2>::from_slice_helper(&mut m);
        v.view_mut(.., 1..)[[i[0], i[1] % 2]] = x;
        let k = nd::usize();
        nd::assume(k < 8);
        assert!(m[k] == if k == i[0] * 3 + 1 + i[1] % 2 { x } else { 7 });
    }
}

trait Helper<'a> {
    fn from_slice_helper(m: &'a mut [u64; 8]) -> Self;
}

impl<'a> Helper<'a> for ViewMut<'a, u64, R2> {
    fn from_slice_helper(m: &'a mut [u64; 8]) -> Self {
        unsafe { ViewMut::new_unchecked(m.as_mut_ptr(), DenseMapping::new(shape(&[2, 3]))) }
    }
}
