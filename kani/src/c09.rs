//! C09: combining expressions, broadcasting and sources.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::*;

/// The expression has the given shape and yields `want(0), .., want(n - 1)`, folded or pulled.
fn gives<E: Expression>(e: E, d: &[usize], pull: bool, got: impl Fn(E::Item) -> isize, want: impl Fn(usize) -> isize) {
    assert!(e.rank() == d.len());
    for i in 0..d.len() {
        assert!(e.dim(i) == d[i]);
    }
    let len = len(d);
    assert!(e.len() == len && e.is_empty() == (len == 0));
    let mut n = 0;
    if pull {
        for x in e.into_iter() {
            assert!(n < len && got(x) == want(n));
            n += 1;
        }
    } else {
        e.for_each(|x| {
            assert!(n < len && got(x) == want(n));
            n += 1;
        });
    }
    assert!(n == len);
}

/// Position of element number `n` of a broadcast operand with sizes `e` and strides `s`.
fn at<const N: usize>(e: &[usize; N], s: &[isize; N], n: usize) -> isize {
    let l = len(e);
    if l == 0 {
        return 0;
    }
    addr(s, &unlinear(e, n % l))
}

const K: isize = 1 << 20;

/// Zipping views gives the elements at corresponding positions, with the inner one repeated.
fn zip_ss<S: Shape, R: Shape, const N: usize, const M: usize>(d: [usize; N], e: [usize; M], out: &[usize], pull: bool) {
    let (s, t) = (nd::within_n::<N>(100), nd::within_n::<M>(100));
    let base = huge() as *const u8;
    let v = strided::<S>(base, &d, &s);
    let w = strided::<R>(base, &e, &t);
    gives(v.zip(w), out, pull, |(x, y)| pos(x, base) * K + pos(y, base), |n| at(&d, &s, n) * K + at(&e, &t, n));
}

fn zip_dd<S: Shape, R: Shape, const N: usize, const M: usize>(d: [usize; N], e: [usize; M], out: &[usize], pull: bool) {
    let base = huge() as *const u8;
    let v = dense::<S>(base, &d);
    let w = dense::<R>(base, &e);
    gives(v.zip(w), out, pull, |(x, y)| pos(x, base) * K + pos(y, base),
        |n| at(&d, &row_major(&d), n) * K + at(&e, &row_major(&e), n));
}

fn zip_ds<S: Shape, R: Shape, const N: usize, const M: usize>(d: [usize; N], e: [usize; M], out: &[usize], pull: bool) {
    let t = nd::within_n::<M>(100);
    let base = huge() as *const u8;
    let v = dense::<S>(base, &d);
    let w = strided::<R>(base, &e, &t);
    gives(v.zip(w), out, pull, |(x, y)| pos(x, base) * K + pos(y, base), |n| at(&d, &row_major(&d), n) * K + at(&e, &t, n));
}

fn zip_sd<S: Shape, R: Shape, const N: usize, const M: usize>(d: [usize; N], e: [usize; M], out: &[usize], pull: bool) {
    let s = nd::within_n::<N>(100);
    let base = huge() as *const u8;
    let v = strided::<S>(base, &d, &s);
    let w = dense::<R>(base, &e);
    gives(v.zip(w), out, pull, |(x, y)| pos(x, base) * K + pos(y, base), |n| at(&d, &s, n) * K + at(&e, &row_major(&e), n));
}

fn mismatch<S: Shape, R: Shape, const N: usize, const M: usize>() {
    let d = nd::upto_n::<N>(1 << 8);
    let e = nd::upto_n::<M>(1 << 8);
    let k = if N < M { N } else { M };
    let mut same = true;
    for i in 0..k {
        same &= d[N - 1 - i] == e[M - 1 - i];
    }
    nd::assume(!same);
    let base = huge() as *const u8;
    let _ = dense::<S>(base, &d).zip(dense::<R>(base, &e));
}

/// `from_fn` calls the function once per index, in row-major order.
fn from_fn_case<S: Shape + IntoShape<IntoShape = S>, const N: usize>(d: [usize; N], pull: bool) {
    let mut calls = 0;
    let e = from_fn(shape::<S>(&d), |i: &[usize]| {
        assert!(i.len() == N);
        for k in 0..N {
            assert!(i[k] == unlinear(&d, calls)[k]);
        }
        calls += 1;
        calls as isize
    });
    gives(e, &d, pull, |x| x, |n| n as isize + 1);
    assert!(calls == len(&d));
}

proofs! {
    // Views of the same shape.
    holds(34) fn b_zip_ss_r1() { zip_ss::<R1, R1, 1, 1>([3], [3], &[3], true) }
    holds(34) fn b_zip_ss_r2() { zip_ss::<R2, R2, 2, 2>([2, 2], [2, 2], &[2, 2], false) }
    holds(34) fn b_zip_ss_r2p() { zip_ss::<R2, R2, 2, 2>([3, 1], [3, 1], &[3, 1], true) }
    holds(34) fn b_zip_dd_r2() { zip_dd::<R2, R2, 2, 2>([2, 3], [2, 3], &[2, 3], true) }
    holds(34) fn b_zip_ds_r2() { zip_ds::<R2, R2, 2, 2>([2, 2], [2, 2], &[2, 2], true) }
    holds(34) fn b_zip_sd_r2() { zip_sd::<R2, R2, 2, 2>([2, 2], [2, 2], &[2, 2], false) }
    holds(34) fn b_zip_dd_r3() { zip_dd::<R3, R3, 3, 3>([2, 1, 3], [2, 1, 3], &[2, 1, 3], false) }
    holds(34) fn b_zip_ds_r3() { zip_ds::<R3, R3, 3, 3>([1, 2, 2], [1, 2, 2], &[1, 2, 2], true) }
    // Broadcasting, lower rank on either side.
    holds(34) fn b_bc_ss_1_2() { zip_ss::<R1, R2, 1, 2>([2], [2, 2], &[2, 2], true) }
    holds(34) fn b_bc_ss_2_1() { zip_ss::<R2, R1, 2, 1>([3, 2], [2], &[3, 2], false) }
    holds(34) fn b_bc_dd_1_2() { zip_dd::<R1, R2, 1, 2>([3], [2, 3], &[2, 3], false) }
    holds(34) fn b_bc_dd_2_1() { zip_dd::<R2, R1, 2, 1>([2, 3], [3], &[2, 3], true) }
    holds(34) fn b_bc_dd_1_3() { zip_dd::<R1, R3, 1, 3>([2], [2, 2, 2], &[2, 2, 2], true) }
    holds(34) fn b_bc_dd_2_3() { zip_dd::<R2, R3, 2, 3>([2, 2], [2, 2, 2], &[2, 2, 2], false) }
    holds(34) fn b_bc_ds_2_3() { zip_ds::<R2, R3, 2, 3>([2, 2], [2, 2, 2], &[2, 2, 2], true) }
    holds(34) fn b_bc_sd_3_2() { zip_sd::<R3, R2, 3, 2>([2, 2, 1], [2, 1], &[2, 2, 1], false) }
    holds(34) fn b_bc_ds_3_1() { zip_ds::<R3, R1, 3, 1>([2, 1, 2], [2], &[2, 1, 2], false) }
    holds(34) fn b_bc_sd_1_3() { zip_sd::<R1, R3, 1, 3>([2], [1, 2, 2], &[1, 2, 2], true) }
    holds(34) fn b_bc_dd_0_1() { zip_dd::<R0, R1, 0, 1>([], [3], &[3], true) }
    holds(34) fn b_bc_ds_2_0() { zip_ds::<R2, R0, 2, 0>([2, 2], [], &[2, 2], false) }
    holds(34) fn b_bc_ss_0_2() { zip_ss::<R0, R2, 0, 2>([], [2, 2], &[2, 2], true) }
    holds(34) fn b_bc_dd_0_0() { zip_dd::<R0, R0, 0, 0>([], [], &[], true) }
    holds(34) fn b_bc_dd_dyn_static() { zip_dd::<DynRank, R2, 1, 2>([3], [2, 3], &[2, 3], true) }
    holds(34) fn b_bc_dd_static_dyn() { zip_dd::<R1, DynRank, 1, 2>([2], [2, 2], &[2, 2], false) }
    holds(34) fn b_bc_ds_dyn_dyn() { zip_ds::<DynRank, DynRank, 2, 1>([2, 2], [2], &[2, 2], true) }
    holds(34) fn b_bc_dd_dyn0() { zip_dd::<DynRank, DynRank, 0, 1>([], [2], &[2], true) }
    holds(34) fn b_bc_const() { zip_dd::<(Const<2>, Const<3>), (Dyn,), 2, 1>([2, 3], [3], &[2, 3], true) }
    holds(34) fn b_bc_const_dyn() { zip_dd::<(Dyn, Const<3>), (Const<2>, Dyn), 2, 2>([2, 3], [2, 3], &[2, 3], false) }
    holds(34) fn b_zip_empty() { zip_dd::<R2, R2, 2, 2>([2, 0], [2, 0], &[2, 0], false) }
    holds(34) fn b_bc_empty_inner() { zip_dd::<R2, R1, 2, 1>([2, 0], [0], &[2, 0], true) }
    holds(34) fn b_bc_empty_outer() { zip_ss::<R1, R2, 1, 2>([2], [0, 2], &[0, 2], false) }
    // Mismatched shapes, up to 2^8 per dimension.
    panics(34) fn b_mismatch_1_1_panics() { mismatch::<R1, R1, 1, 1>() }
    panics(34) fn b_mismatch_2_2_panics() { mismatch::<R2, R2, 2, 2>() }
    panics(34) fn b_mismatch_1_2_panics() { mismatch::<R1, R2, 1, 2>() }
    panics(34) fn b_mismatch_3_2_panics() { mismatch::<R3, R2, 3, 2>() }
    panics(34) fn b_mismatch_dyn_panics() { mismatch::<DynRank, R2, 2, 2>() }
    panics(34) fn b_mismatch_dyn_dyn_panics() { mismatch::<DynRank, DynRank, 1, 2>() }
    // Expressions that must not be repeated.
    panics(34) fn b_repeat_mut_panics() {
        let _ = dense_mut::<R1>(huge(), &[2]).zip(dense::<R2>(huge(), &[3, 2]));
    }
    panics(34) fn b_repeat_mut_right_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(dense_mut::<R1>(huge(), &[2]));
    }
    panics(34) fn b_repeat_mut_strided_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(strided_mut::<R1>(huge(), &[2], &[1]));
    }
    panics(34) fn b_repeat_mut_map_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(dense_mut::<R1>(huge(), &[2]).map(|x| x));
    }
    panics(34) fn b_repeat_mut_zip_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(dense::<R1>(huge(), &[2]).zip(dense_mut::<R1>(huge(), &[2])));
    }
    panics(34) fn b_repeat_mut_enumerate_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(dense_mut::<R1>(huge(), &[2]).enumerate());
    }
    panics(34) fn b_repeat_value_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(Array::<u8, (Const<2>,)>::from([1, 2]));
    }
    panics(34) fn b_repeat_value_left_panics() {
        let _ = Array::<u8, (Const<2>,)>::from([1, 2]).into_expr().zip(dense::<R2>(huge(), &[3, 2]));
    }
    panics(34) fn b_repeat_tensor_panics() {
        let _ = dense::<R2>(huge(), &[3, 2]).zip(Tensor::<u8, R1>::from([1, 2]));
    }
    panics(34) fn b_repeat_lanes_mut_panics() {
        let mut v = dense_mut::<R2>(huge(), &[2, 2]);
        let _ = dense::<R2>(huge(), &[3, 2]).zip(v.rows_mut());
    }
    panics(34) fn b_repeat_axis_mut_panics() {
        let mut v = dense_mut::<R2>(huge(), &[2, 2]);
        let _ = dense::<R2>(huge(), &[3, 2]).zip(v.outer_expr_mut());
    }
    panics(34) fn b_repeat_drain_panics() {
        let mut t = Tensor::<u8, R1>::from([1, 2]);
        let _ = dense::<R2>(huge(), &[3, 2]).zip(t.drain(..));
    }
    // Mutable on the outside is fine.
    holds(34) fn b_bc_mut() {
        let base = huge();
        let v = dense_mut::<R2>(base, &[2, 2]);
        let w = dense::<R1>(base, &[2]);
        gives(v.zip(w), &[2, 2], true, |(x, y)| pos(x, base) * K + pos(y, base), |n| n as isize * K + (n % 2) as isize);
    }
    holds(34) fn b_bc_mut_right() {
        let base = huge();
        let s = nd::within_n::<2>(100);
        let w = dense::<R1>(base, &[2]);
        let v = strided_mut::<R2>(base, &[2, 2], &s);
        gives(w.zip(v), &[2, 2], false, |(x, y)| pos(x, base) * K + pos(y, base), |n| (n % 2) as isize * K + at(&[2, 2], &s, n));
    }
    // Nested zips with different inner ranks.
    holds(34) fn b_zip3() {
        let base = huge() as *const u8;
        let s = nd::within_n::<2>(100);
        let a = dense::<R3>(base, &[2, 2, 2]);
        let b = strided::<R2>(base, &[2, 2], &s);
        let c = dense::<R1>(base, &[2]);
        gives(a.zip(b).zip(c), &[2, 2, 2], false, |((x, y), z)| pos(x, base) * K * K + pos(y, base) * K + pos(z, base),
            |n| n as isize * K * K + at(&[2, 2], &s, n) * K + (n % 2) as isize);
    }
    holds(34) fn b_zip3_inner() {
        let base = huge() as *const u8;
        let a = dense::<R1>(base, &[2]);
        let b = dense::<R2>(base, &[2, 2]);
        let c = dense::<R3>(base, &[2, 2, 2]);
        gives(a.zip(b).zip(c), &[2, 2, 2], true, |((x, y), z)| pos(x, base) * K * K + pos(y, base) * K + pos(z, base),
            |n| (n % 2) as isize * K * K + (n % 4) as isize * K + n as isize);
    }
    holds(34) fn b_zip_right_nested() {
        let base = huge() as *const u8;
        let a = dense::<R2>(base, &[2, 2]);
        let b = strided::<R1>(base, &[2], &[5]);
        gives(a.zip(from_elem([2, 2], 1u8).zip(b)), &[2, 2], true, |(x, (y, z))| pos(x, base) * K + pos(z, base) * y as isize,
            |n| n as isize * K + 5 * (n % 2) as isize);
    }
    // Adapters.
    holds(14) fn b_map() {
        let base = huge() as *const u8;
        let s = nd::within_n::<2>(100);
        let mut calls = 0;
        let e = strided::<R2>(base, &[2, 2], &s).map(|x| { calls += 1; pos(x, base) * 4 + calls });
        gives(e, &[2, 2], false, |x| x, |n| at(&[2, 2], &s, n) * 4 + n as isize + 1);
        assert!(calls == 4);
    }
    holds(14) fn b_map_pull() {
        let base = huge() as *const u8;
        let e = map(dense::<R2>(base, &[3, 2]), |x| pos(x, base) + 7);
        gives(e, &[3, 2], true, |x| x, |n| n as isize + 7);
    }
    holds(14) fn b_enumerate() {
        let base = huge() as *const u8;
        let s = nd::within_n::<2>(100);
        gives(strided::<R2>(base, &[2, 2], &s).enumerate(), &[2, 2], false, |(i, x)| i as isize * K + pos(x, base),
            |n| n as isize * K + at(&[2, 2], &s, n));
    }
    holds(14) fn b_enumerate_pull() {
        let base = huge() as *const u8;
        gives(enumerate(dense::<R3>(base, &[2, 1, 3])), &[2, 1, 3], true, |(i, x)| i as isize * K + pos(x, base),
            |n| n as isize * (K + 1));
    }
    holds(14) fn b_cloned() {
        let buf = BUF;
        let base = unsafe { buf.as_ptr().add(MID) };
        gives(strided::<R2>(base, &[2, 3], &[-13, 4]).cloned(), &[2, 3], true, |x| x as isize,
            |n| MID as isize + at(&[2, 3], &[-13, 4], n));
    }
    holds(14) fn b_cloned_fn() {
        let buf = BUF;
        gives(cloned(dense::<R2>(buf.as_ptr(), &[2, 3])), &[2, 3], false, |x| x as isize, |n| n as isize);
    }
    holds(14) fn b_copied() {
        let buf = BUF;
        let base = unsafe { buf.as_ptr().add(MID) };
        gives(strided::<R2>(base, &[2, 3], &[-13, 4]).copied(), &[2, 3], false, |x| x as isize,
            |n| MID as isize + at(&[2, 3], &[-13, 4], n));
    }
    holds(14) fn b_copied_fn() {
        let buf = BUF;
        gives(copied(dense::<R2>(buf.as_ptr(), &[3, 2])), &[3, 2], true, |x| x as isize, |n| n as isize);
    }
    holds(34) fn b_copied_broadcast() {
        let buf = BUF;
        let v = dense::<R2>(buf.as_ptr(), &[2, 2]);
        let w = strided::<R1>(unsafe { buf.as_ptr().add(MID) }, &[2], &[-9]);
        gives(v.copied().zip(w.copied()), &[2, 2], true, |(x, y)| x as isize * 1000 + y as isize,
            |n| n as isize * 1000 + 64 - 9 * (n % 2) as isize);
    }
    holds(34) fn b_cloned_broadcast() {
        let buf = BUF;
        let v = strided::<R1>(unsafe { buf.as_ptr().add(MID) }, &[2], &[-9]);
        let w = dense::<R3>(buf.as_ptr(), &[2, 2, 2]);
        gives(v.cloned().zip(w.cloned()), &[2, 2, 2], false, |(x, y)| x as isize * 1000 + y as isize,
            |n| (64 - 9 * (n % 2) as isize) * 1000 + n as isize);
    }
    holds(34) fn b_map_broadcast() {
        let base = huge() as *const u8;
        let s = nd::within_n::<2>(100);
        let v = dense::<R3>(base, &[2, 2, 2]);
        let w = strided::<R2>(base, &[2, 2], &s).map(|x| pos(x, base));
        gives(v.zip(w), &[2, 2, 2], true, |(x, y)| pos(x, base) * K + y, |n| n as isize * K + at(&[2, 2], &s, n));
    }
    holds(34) fn b_zip_fn() {
        let base = huge() as *const u8;
        gives(zip(dense::<R2>(base, &[2, 2]), dense::<R1>(base, &[2])), &[2, 2], false, |(x, y)| pos(x, base) * K + pos(y, base),
            |n| n as isize * K + (n % 2) as isize);
    }
    // Sources.
    holds(14) fn b_fill() {
        let x = nd::u8();
        gives(fill(x), &[], true, |y| y as isize, |_| x as isize);
    }
    holds(34) fn b_fill_zip() {
        let (x, base) = (nd::u8(), huge() as *const u8);
        let s = nd::within_n::<2>(100);
        gives(fill(x).zip(strided::<R2>(base, &[2, 2], &s)), &[2, 2], true, |(y, z)| y as isize * K + pos(z, base),
            |n| x as isize * K + at(&[2, 2], &s, n));
    }
    holds(34) fn b_fill_with_zip() {
        let base = huge() as *const u8;
        let mut calls = 0;
        gives(dense::<R2>(base, &[2, 3]).zip(fill_with(|| { calls += 1; calls })), &[2, 3], true, |(z, y): (&u8, isize)| y * K + pos(z, base),
            |n| (n as isize + 1) * K + n as isize);
        assert!(calls == 6);
    }
    holds(14) fn b_from_elem() {
        let x = nd::u8();
        gives(from_elem([2, 3], x), &[2, 3], true, |y| y as isize, |_| x as isize);
    }
    holds(14) fn b_from_elem_fold() {
        let x = nd::u8();
        gives(from_elem([2, 0, 3], x), &[2, 0, 3], false, |y| y as isize, |_| x as isize);
    }
    holds(14) fn b_from_elem_dyn() {
        let x = nd::u8();
        gives(from_elem(DynRank::from_dims(&[3, 2]), x), &[3, 2], true, |y| y as isize, |_| x as isize);
    }
    holds(14) fn b_from_fn_r0() { from_fn_case::<R0, 0>([], true) }
    holds(14) fn b_from_fn_r1() { from_fn_case::<R1, 1>([4], false) }
    holds(14) fn b_from_fn_r2() { from_fn_case::<R2, 2>([2, 3], true) }
    holds(14) fn b_from_fn_r2f() { from_fn_case::<R2, 2>([3, 2], false) }
    holds(14) fn b_from_fn_r3() { from_fn_case::<R3, 3>([2, 1, 2], false) }
    holds(14) fn b_from_fn_r3p() { from_fn_case::<R3, 3>([1, 2, 2], true) }
    holds(14) fn b_from_fn_r4() { from_fn_case::<R4, 4>([2, 1, 2, 1], true) }
    holds(14) fn b_from_fn_empty() { from_fn_case::<R2, 2>([2, 0], true) }
    holds(14) fn b_from_fn_empty0() { from_fn_case::<R2, 2>([0, 2], false) }
    holds(14) fn b_from_fn_dyn() { from_fn_case::<DynRank, 2>([2, 2], true) }
    holds(14) fn b_from_fn_dyn0() { from_fn_case::<DynRank, 0>([], false) }
    holds(14) fn b_from_fn_const() { from_fn_case::<(Const<2>, Const<2>), 2>([2, 2], false) }
    holds(34) fn b_from_fn_zip_inner() {
        let base = huge() as *const u8;
        let f = from_fn([2], |i: &[usize]| i[0] as isize);
        gives(dense::<R2>(base, &[3, 2]).zip(f), &[3, 2], true, |(x, y)| pos(x, base) * K + y, |n| n as isize * K + (n % 2) as isize);
    }
    holds(34) fn b_from_fn_zip_inner2() {
        let base = huge() as *const u8;
        let f = from_fn([2, 2], |i: &[usize]| (10 * i[0] + i[1]) as isize);
        gives(f.zip(dense::<R3>(base, &[2, 2, 2])), &[2, 2, 2], false, |(y, x)| pos(x, base) * K + y,
            |n| n as isize * K + (10 * (n / 2 % 2) + n % 2) as isize);
    }
    holds(34) fn b_from_fn_zip_strided() {
        let base = huge() as *const u8;
        let s = nd::within_n::<2>(100);
        let f = from_fn([2, 2], |i: &[usize]| (10 * i[0] + i[1]) as isize);
        gives(strided::<R2>(base, &[2, 2], &s).zip(f), &[2, 2], false, |(x, y)| pos(x, base) * K + y,
            |n| at(&[2, 2], &s, n) * K + (10 * (n / 2) + n % 2) as isize);
    }
    holds(34) fn b_from_fn_zip_empty() {
        let base = huge() as *const u8;
        let f = from_fn([0], |i: &[usize]| i[0] as isize);
        gives(dense::<R2>(base, &[3, 0]).zip(f), &[3, 0], true, |(_, y)| y, |_| 0);
    }
    // Evaluation into owned arrays.
    holds(34) fn b_eval_tensor() {
        let x = nd::u8();
        let buf = BUF;
        let t = dense::<R2>(buf.as_ptr(), &[2, 2]).zip(fill(x)).map(|(a, b)| *a ^ b).eval();
        assert!(t.dim(0) == 2 && t.dim(1) == 2 && t.len() == 4);
        for i in 0..4 {
            assert!(t[[i / 2, i % 2]] == i as u8 ^ x);
        }
    }
    holds(34) fn b_eval_array() {
        let x = nd::u8();
        let a = from_elem((Const::<2>, Const::<2>), x).zip(from_fn((Const::<2>, Const::<2>), |i: &[usize]| (2 * i[0] + i[1]) as u8)).map(|(a, b)| a ^ b).eval();
        for i in 0..4 {
            assert!(a[[i / 2, i % 2]] == i as u8 ^ x);
        }
    }
    holds(34) fn b_eval_into() {
        let buf = BUF;
        let mut t = Tensor::<u8, R2>::new();
        strided::<R2>(buf.as_ptr(), &[2, 2], &[10, 3]).copied().eval_into(&mut t);
        assert!(t.dim(0) == 2 && t.dim(1) == 2);
        for i in 0..4 {
            assert!(t[[i / 2, i % 2]] == (10 * (i / 2) + 3 * (i % 2)) as u8);
        }
    }
    holds(34) fn b_apply() {
        let x = nd::u8();
        let buf = BUF;
        let v = dense::<R2>(buf.as_ptr(), &[2, 2]);
        gives((&v).apply(|a: &u8| (*a ^ x) as isize), &[2, 2], false, |y| y, |n| (n as u8 ^ x) as isize);
        gives((&v).zip_with(fill(x), |(a, b): (&u8, u8)| (*a ^ b) as isize), &[2, 2], true, |y| y, |n| (n as u8 ^ x) as isize);
    }
}
