//! C07: iteration.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::*;

/// The iterator yields items `want(0), .., want(n - 1)`: `k` by `next` and the rest by `fold`.
fn yields<I: ExactSizeIterator>(mut it: I, n: usize, k: usize, got: impl Fn(I::Item) -> isize, want: impl Fn(usize) -> isize) {
    for i in 0..k {
        if k == n {
            let h = it.size_hint();
            assert!(h.0 == n - i && h.1 == Some(n - i));
        }
        match it.next() {
            Some(x) => assert!(got(x) == want(i)),
            None => assert!(false),
        }
    }
    if k == n {
        for _ in 0..2 {
            assert!(it.next().is_none());
            assert!(it.len() == 0 && it.size_hint().1 == Some(0));
        }
    }
    let m = it.fold(k, |i, x| {
        assert!(i < n && got(x) == want(i));
        i + 1
    });
    assert!(m == n);
}

/// Whether to switch from `next` to `fold` here: everywhere, or at the ends and inside.
fn point(k: usize, n: usize) -> bool {
    cfg!(feature = "thorough") || k == 0 || k == n / 2 + 1 || k == n
}

/// Switching points from `next` to `fold`.
fn all<I: ExactSizeIterator>(make: impl Fn() -> I, n: usize, got: impl Fn(I::Item) -> isize, want: impl Fn(usize) -> isize) {
    for k in 0..n + 1 {
        if !point(k, n) {
            continue;
        }
        yields(make(), n, k, &got, &want);
    }
}

fn dense_case<S: Shape, const N: usize>(d: [usize; N]) {
    let base = huge() as *const u8;
    let v = dense::<S>(base, &d);
    all(|| v.iter(), len(&d), |x| pos(x, base), |i| i as isize);
}

fn strided_at<S: Shape, const N: usize>(d: [usize; N], s: [isize; N], k: usize) {
    let base = huge() as *const u8;
    let v = strided::<S>(base, &d, &s);
    yields(v.iter(), len(&d), k, |x| pos(x, base), |i| addr(&s, &unlinear(&d, i)));
}

/// All by `next` and all by `fold`, for symbolic strides.
fn strided_any<S: Shape, const N: usize>(d: [usize; N], max: isize) {
    let s = nd::within_n::<N>(max);
    strided_at::<S, N>(d, s, 0);
    strided_at::<S, N>(d, s, len(&d));
}

/// Every switching point, for strides of which no two sums coincide.
fn strided_case<S: Shape, const N: usize>(d: [usize; N]) {
    let n = len(&d);
    let mut s = [0; N];
    for i in 0..N {
        s[i] = [-100, 5, 31, -2, 401, 64][i];
    }
    for k in 0..n + 1 {
        if !point(k, n) {
            continue;
        }
        strided_at::<S, N>(d, s, k);
    }
}

/// Symbolic sizes, including empty ones.
fn strided_sym<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let mut s = [0; N];
    for i in 0..N {
        s[i] = 4isize.pow(i as u32);
    }
    let base = huge() as *const u8;
    let v = strided::<S>(base, &d, &s);
    let n = len(&d);
    let mut it = v.into_iter();
    let mut i = 0;
    let mut idx = [0; N];
    while i < n {
        assert!(it.len() == n - i);
        match it.next() {
            Some(x) => assert!(pos(x, base) == addr(&s, &idx)),
            None => assert!(false),
        }
        i += 1;
        let mut j = N;
        while j > 0 {
            j -= 1;
            idx[j] += 1;
            if idx[j] < d[j] {
                break;
            }
            idx[j] = 0;
        }
    }
    assert!(it.len() == 0 && it.next().is_none() && it.next().is_none() && it.len() == 0);
}

/// Symbolic sizes, folded at once.
fn fold_sym<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let mut s = [0; N];
    for i in 0..N {
        s[i] = 4isize.pow(i as u32);
    }
    let base = huge() as *const u8;
    let v = strided::<S>(base, &d, &s);
    let mut idx = [0; N];
    let mut n = 0;
    v.for_each(|x| {
        assert!(pos(x, base) == addr(&s, &idx));
        n += 1;
        let mut j = N;
        while j > 0 {
            j -= 1;
            idx[j] += 1;
            if idx[j] < d[j] {
                break;
            }
            idx[j] = 0;
        }
    });
    assert!(n == len(&d));
}

fn tensor6() -> Tensor<u8, R2> {
    Tensor::from([[0u8, 1, 2], [3, 4, 5]])
}

fn array6() -> Array<u8, (Const<3>, Const<2>)> {
    Array::from([[0u8, 1], [2, 3], [4, 5]])
}

fn val(x: u8) -> isize {
    x as isize
}

fn nth(i: usize) -> isize {
    i as isize
}

proofs! {
    holds(14) fn b_dense_r0() { dense_case::<R0, 0>([]) }
    holds(14) fn b_dense_r1() { dense_case::<R1, 1>([5]) }
    holds(14) fn b_dense_r2() { dense_case::<R2, 2>([2, 3]) }
    holds(14) fn b_dense_r3() { dense_case::<R3, 3>([2, 1, 3]) }
    holds(14) fn b_dense_empty0() { dense_case::<R1, 1>([0]) }
    holds(14) fn b_dense_empty1() { dense_case::<R2, 2>([2, 0]) }
    holds(14) fn b_dense_empty2() { dense_case::<R3, 3>([0, 2, 3]) }
    holds(14) fn b_dense_dyn() { dense_case::<DynRank, 2>([3, 2]) }
    holds(14) fn b_dense_dyn0() { dense_case::<DynRank, 0>([]) }
    holds(14) fn b_dense_const() { dense_case::<(Const<2>, Const<3>), 2>([2, 3]) }
    holds(14) fn b_strided_r0() { strided_case::<R0, 0>([]) }
    holds(14) fn b_strided_r1() { strided_case::<R1, 1>([5]) }
    holds(14) fn b_strided_r1_one() { strided_case::<R1, 1>([1]) }
    holds(14) fn b_strided_r2() { strided_case::<R2, 2>([2, 3]) }
    holds(14) fn b_strided_r2b() { strided_case::<R2, 2>([3, 2]) }
    holds(14) fn b_strided_r2c() { strided_case::<R2, 2>([4, 1]) }
    holds(14) fn b_strided_r3() { strided_case::<R3, 3>([2, 1, 3]) }
    holds(14) fn b_strided_r3b() { strided_case::<R3, 3>([2, 2, 2]) }
    holds(13) fn b_strided_r3c() { strided_case::<R3, 3>([1, 3, 2]) }
    holds(14) fn b_strided_r4() { strided_case::<R4, 4>([2, 1, 1, 2]) }
    holds(14) fn b_strided_r5() { strided_case::<R5, 5>([2, 1, 2, 1, 1]) }
    holds(14) fn b_strided_r6() { strided_case::<R6, 6>([1, 2, 1, 1, 1, 2]) }
    holds(14) fn b_strided_empty0() { strided_case::<R1, 1>([0]) }
    holds(14) fn b_strided_empty1() { strided_case::<R2, 2>([2, 0]) }
    holds(14) fn b_strided_empty2() { strided_case::<R2, 2>([0, 3]) }
    holds(14) fn b_strided_empty3() { strided_case::<R3, 3>([2, 0, 3]) }
    holds(14) fn b_strided_empty4() { strided_case::<R3, 3>([2, 3, 0]) }
    holds(14) fn b_strided_empty5() { strided_case::<R3, 3>([0, 2, 0]) }
    holds(14) fn b_strided_dyn() { strided_case::<DynRank, 2>([3, 2]) }
    holds(14) fn b_strided_dyn1() { strided_case::<DynRank, 1>([3]) }
    holds(14) fn b_strided_dyn0() { strided_case::<DynRank, 0>([]) }
    holds(14) fn b_strided_dyn_empty() { strided_case::<DynRank, 2>([0, 2]) }
    holds(14) fn b_strided_const() { strided_case::<(Const<2>, Const<3>), 2>([2, 3]) }
    holds(14) fn b_any_r1() { strided_any::<R1, 1>([4], 100) }
    holds(14) fn b_any_r2() { strided_any::<R2, 2>([2, 2], 100) }
    holds(14) fn b_any_empty() { strided_any::<R2, 2>([0, 2], 100) }
    holds(11) fn b_sym_r1() { strided_sym::<R1, 1>(4) }
    holds(11) fn b_sym_r2() { strided_sym::<R2, 2>(3) }
    holds(11) fn b_sym_r3() { strided_sym::<R3, 3>(2) }
    holds(11) fn b_fold_r1() { fold_sym::<R1, 1>(4) }
    holds(11) fn b_fold_r2() { fold_sym::<R2, 2>(2) }
    // Other types, by shared and mutable reference and by value.
    holds(14) fn b_iter_mut_d() {
        for k in 0..7 {
            let mut buf = BUF;
            let base = buf.as_ptr();
            let mut v = dense_mut::<R2>(buf.as_mut_ptr(), &[2, 3]);
            yields(v.iter_mut(), 6, k, |x| pos(x, base), nth);
        }
    }
    holds(14) fn b_iter_mut_s() {
        let s = [-30, 7];
        for k in [0, 4, 6] {
            let base = huge();
            let mut v = strided_mut::<R2>(base, &[2, 3], &s);
            yields(v.iter_mut(), 6, k, |x| pos(x, base), |i| addr(&s, &unlinear(&[2, 3], i)));
        }
    }
    holds(14) fn b_into_iter_refs_t() {
        let t = tensor6();
        for k in [0, 4, 6] {
            yields((&t).into_iter(), 6, k, |x| val(*x), nth);
        }
    }
    holds(14) fn b_into_iter_refs_a() {
        let a = array6();
        all(|| (&a).into_iter(), 6, |x| val(*x), nth);
    }
    holds(14) fn b_into_iter_views() {
        let buf = BUF;
        let v = dense::<R2>(buf.as_ptr(), &[3, 2]);
        yields((&v).into_iter(), 6, 3, |x| val(*x), nth);
        yields(v.expr().into_iter(), 6, 6, |x| val(*x), nth);
        let w: &Slice<u8, R2> = &v;
        yields(w.into_iter(), 6, 4, |x| val(*x), nth);
        yields(v.into_iter(), 6, 2, |x| val(*x), nth);
    }
    holds(14) fn b_into_iter_mut() {
        let mut t = tensor6();
        yields((&mut t).into_iter(), 6, 3, |x| val(*x), nth);
        let mut a = array6();
        yields((&mut a).into_iter(), 6, 3, |x| val(*x), nth);
        let mut buf = BUF;
        let mut v = dense_mut::<R2>(buf.as_mut_ptr(), &[3, 2]);
        yields((&mut v).into_iter(), 6, 2, |x| val(*x), nth);
        yields(v.into_iter(), 6, 4, |x| val(*x), nth);
    }
    holds(14) fn b_by_value_array() {
        yields(array6().into_iter(), 6, 3, val, nth);
    }
    holds(14) fn b_by_value_array0() { yields(array6().into_iter(), 6, 0, val, nth) }
    holds(14) fn b_by_value_array6() { yields(array6().into_iter(), 6, 6, val, nth) }
    holds(14) fn b_by_value_tensor0() { yields(tensor6().into_iter(), 6, 0, val, nth) }
    holds(14) fn b_by_value_tensor2() { yields(tensor6().into_iter(), 6, 2, val, nth) }
    holds(14) fn b_by_value_tensor6() { yields(tensor6().into_iter(), 6, 6, val, nth) }
    holds(14) fn b_by_value_dyn() { yields(tensor6().into_dyn().into_iter(), 6, 4, val, nth) }
    holds(14) fn b_by_value_empty() {
        yields(Tensor::<u8, R2>::new().into_iter(), 0, 0, val, nth);
        yields(Array::<u8, (Const<2>, Const<0>)>::from([[]; 2]).into_iter(), 0, 0, val, nth);
    }
    holds(14) fn b_drain() {
        let mut t = tensor6();
        yields(t.drain(1..).into_iter(), 3, 1, val, |i| 3 + i as isize);
    }
    // Expressions, with inner rank from the operands.
    holds(34) fn b_zip_mixed() {
        let s = [-30, 7];
        let base = huge() as *const u8;
        let v = dense::<R2>(base, &[2, 3]);
        let w = strided::<R2>(base, &[2, 3], &s);
        for k in [0, 4, 6] {
            yields(v.expr().zip(w.expr()).into_iter(), 6, k,
                |(x, y)| pos(x, base) * 1000 + pos(y, base),
                |i| i as isize * 1000 + addr(&s, &unlinear(&[2, 3], i)));
        }
    }
    holds(14) fn b_map_strided() {
        let s = [-30, 1, 7];
        let mid = huge() as *const u8;
        let w = strided::<R3>(mid, &[2, 1, 2], &s);
        all(|| w.expr().map(|x| pos(x, mid) * 2).into_iter(), 4, |x| x, |i| 2 * addr(&s, &unlinear(&[2, 1, 2], i)));
    }
    holds(14) fn b_from_fn() {
        all(|| from_fn([2, 3], |i: &[usize]| (10 * i[0] + i[1]) as isize).into_iter(), 6, |x| x,
            |i| (10 * (i / 3) + i % 3) as isize);
    }
    holds(14) fn b_from_fn_empty() {
        all(|| from_fn([2, 0], |i: &[usize]| (10 * i[0] + i[1]) as isize).into_iter(), 0, |x| x, nth);
        all(|| from_fn([0, 2], |i: &[usize]| (10 * i[0] + i[1]) as isize).into_iter(), 0, |x| x, nth);
    }
    holds(14) fn b_axis_expr() {
        let base = huge() as *const u8;
        let v = dense::<R2>(base, &[4, 3]);
        all(|| v.outer_expr().into_iter(), 4, |x| pos(unsafe { &*x.as_ptr() }, base), |i| 3 * i as isize);
    }
    holds(14) fn b_axis_expr1() {
        let base = huge() as *const u8;
        let v = dense::<R2>(base, &[4, 3]);
        all(|| v.axis_expr(Const::<1>).into_iter(), 3, |x| pos(unsafe { &*x.as_ptr() }, base), nth);
    }
    holds(14) fn b_lanes() {
        let base = huge() as *const u8;
        let v = dense::<R3>(base, &[2, 2, 2]);
        all(|| v.lanes(Const::<1>).into_iter(), 4, |x| pos(unsafe { &*x.as_ptr() }, base), |i| (4 * (i / 2) + i % 2) as isize);
    }
    holds(14) fn b_clone() {
        let base = huge() as *const u8;
        let v = strided::<R2>(base, &[2, 3], &[7, 2]);
        let mut it = v.iter();
        for _ in 0..4 {
            let _ = it.next();
        }
        let c = it.clone();
        yields(c, 2, 1, |x| pos(x, base), |i| [9, 11][i]);
        yields(it, 2, 0, |x| pos(x, base), |i| [9, 11][i]);
    }
    holds(14) fn b_fold_order() {
        let buf = BUF;
        let v = strided::<R2>(buf.as_ptr(), &[2, 3], &[10, 3]);
        let n = v.expr().fold(0usize, |n, x| {
            assert!(*x == [0, 3, 6, 10, 13, 16][n]);
            n + 1
        });
        assert!(n == 6);
        let mut n = 0;
        v.expr().for_each(|x| {
            assert!(*x == [0, 3, 6, 10, 13, 16][n]);
            n += 1;
        });
        assert!(n == 6);
    }
}
