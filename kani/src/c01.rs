//! C01: indexing.
use crate::model::*;
use crate::nd;
use mdarray::index::SliceIndex;
use mdarray::*;
use std::ops::Bound;

/// Dense strides are row-major: stride(i) is the product of the dimensions after i.
fn dense_stride<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let m = DenseMapping::new(shape::<S>(&d));
    assert!(m.is_contiguous() && m.rank() == N);
    for i in 0..N {
        let mut p = 1;
        for j in i + 1..N {
            p *= d[j];
        }
        assert!(m.stride(i) == p as isize && m.dim(i) == d[i]);
    }
}

/// Strided mappings keep the given sizes and strides.
fn strided_parts<S: Shape, const N: usize>() {
    let (d, s, m) = any_strided::<S, N>();
    assert!(m.rank() == N && m.strides().len() == N);
    for i in 0..N {
        assert!(m.dim(i) == d[i] && m.stride(i) == s[i] && m.strides()[i] == s[i]);
    }
    let mut seen = 0;
    m.for_each_stride(|i, x| {
        assert!(x == s[i]);
        seen |= 1 << i;
    });
    assert!(seen == (1 << N) - 1);
    assert!(m.inner_stride() == s[N - 1]);
}

/// offset(index) is the sum of stride times index.
fn strided_offset<S: Shape, const N: usize>(max: isize) {
    let d = nd::upto_n::<N>(max as usize);
    let s = nd::within_n::<N>(max);
    let idx = any_index(&d);
    let m = StridedMapping::new(shape::<S>(&d), &s);
    assert!(m.offset(&idx) == addr(&s, &idx));
}

fn dense_offset<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let idx = any_index(&d);
    let m = DenseMapping::new(shape::<S>(&d));
    assert!(m.offset(&idx) == linear(&d, &idx) as isize);
    assert!(m.linear_offset(linear(&d, &idx)) == linear(&d, &idx) as isize);
}

/// linear_offset of the row-major position is the offset of the multi-index.
fn strided_linear<S: Shape, const N: usize>(max: usize, smax: isize) {
    let d = nd::upto_n::<N>(max);
    let s = nd::within_n::<N>(smax);
    let idx = any_index(&d);
    let m = StridedMapping::new(shape::<S>(&d), &s);
    assert!(m.linear_offset(linear(&d, &idx)) == addr(&s, &idx));
}

/// Checked and unchecked access with a multi-index give the element at the specified address.
fn access<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let idx = any_index(&d);
    let a = addr(&s, &idx);
    let base = v.as_ptr();
    assert!(v.as_mut_ptr() as *const u8 == base);
    assert!(pos(&v[idx], base) == a);
    assert!(pos(&mut v[idx], base) == a);
    unsafe {
        assert!(pos(v.get_unchecked(idx), base) == a);
        assert!(pos(v.get_unchecked_mut(idx), base) == a);
    }
}

/// The same for indices given as a slice, for dynamic rank.
fn access_dyn<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let idx = any_index(&d);
    let a = addr(&s, &idx);
    let base = v.as_ptr();
    assert!(pos(&v[&idx[..]], base) == a);
    assert!(pos(&mut v[&idx[..]], base) == a);
    unsafe {
        assert!(pos(v.get_unchecked(&idx[..]), base) == a);
        assert!(pos(v.get_unchecked_mut(&idx[..]), base) == a);
    }
}

/// The same for the row-major position of the index.
fn access_linear<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let idx = any_index(&d);
    let n = linear(&d, &idx);
    let a = addr(&s, &idx);
    let base = v.as_ptr();
    assert!(pos(&v[n], base) == a);
    assert!(pos(&mut v[n], base) == a);
    unsafe {
        assert!(pos(v.get_unchecked(n), base) == a);
        assert!(pos(v.get_unchecked_mut(n), base) == a);
    }
}

/// Flat ranges of dense arrays.
fn ranges<S: Shape>(v: &Slice<u8, S>, len: usize) {
    let base = v.as_ptr();
    let (a, b) = (nd::upto(len), nd::upto(len));
    nd::assume(a <= b);
    let ok = |r: &[u8], x: usize, y: usize| {
        assert!(r.len() == y - x && pos(r, base) == x as isize);
    };
    ok(&v[a..b], a, b);
    ok(&v[a..], a, len);
    ok(&v[..b], 0, b);
    ok(&v[..], 0, len);
    ok(&v[(Bound::Included(a), Bound::Excluded(b))], a, b);
    unsafe {
        ok(v.get_unchecked(a..b), a, b);
    }
    if b < len {
        ok(&v[a..=b], a, b + 1);
        ok(&v[..=b], 0, b + 1);
    }
}

fn ranges_mut<S: Shape>(v: &mut Slice<u8, S>, len: usize) {
    let base = v.as_ptr();
    let (a, b) = (nd::upto(len), nd::upto(len));
    nd::assume(a <= b);
    let ok = |r: &mut [u8], x: usize, y: usize| {
        assert!(r.len() == y - x && pos(r, base) == x as isize);
    };
    ok(&mut v[a..b], a, b);
    ok(&mut v[a..], a, len);
    ok(&mut v[..b], 0, b);
    ok(&mut v[..], 0, len);
    unsafe {
        ok(v.get_unchecked_mut(a..b), a, b);
    }
    if b < len {
        ok(&mut v[a..=b], a, b + 1);
        ok(&mut v[..=b], 0, b + 1);
        ok(&mut v[(Bound::Unbounded, Bound::Included(b))], 0, b + 1);
    }
}

fn dense_access<S: Shape, const N: usize>(d: [usize; N]) {
    let mut buf = BUF;
    let mut v = dense_mut::<S>(buf.as_mut_ptr(), &d);
    access(&mut v, d, row_major(&d));
    access_linear(&mut v, d, row_major(&d));
}

/// Dense views of large size: dimensions are symbolic.
fn dense_wide<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let mut v = dense_mut::<S>(huge(), &d);
    access(&mut v, d, row_major(&d));
}

fn strided_access<S: Shape, const N: usize>(d: [usize; N], smax: isize) {
    let mut buf = BUF;
    let s = nd::within_n::<N>(smax);
    let mut v = strided_mut::<S>(unsafe { buf.as_mut_ptr().add(MID) }, &d, &s);
    access(&mut v, d, s);
}

fn strided_access_linear<S: Shape, const N: usize>(d: [usize; N], smax: isize) {
    let mut buf = BUF;
    let s = nd::within_n::<N>(smax);
    let mut v = strided_mut::<S>(unsafe { buf.as_mut_ptr().add(MID) }, &d, &s);
    access_linear(&mut v, d, s);
}

/// Strided views of large size and stride.
fn strided_wide<S: Shape, const N: usize>(max: usize, smax: isize) {
    let d = nd::upto_n::<N>(max);
    let s = nd::within_n::<N>(smax);
    let mut v = strided_mut::<S>(huge(), &d, &s);
    access(&mut v, d, s);
}

proofs! {
    holds(8) fn p_dense_stride_r1() { dense_stride::<R1, 1>(usize::MAX) }
    holds(8) fn p_dense_stride_r2() { dense_stride::<R2, 2>(isize::MAX as usize) }
    holds(8) fn b_dense_stride_r3() { dense_stride::<R3, 3>(1 << 20) }
    holds(8) fn b_dense_stride_r4() { dense_stride::<R4, 4>(1 << 8) }
    holds(8) fn b_dense_stride_r5() { dense_stride::<R5, 5>(1 << 5) }
    holds(8) fn b_dense_stride_r6() { dense_stride::<R6, 6>(1 << 3) }
    holds(8) fn p_strided_parts_r1() { strided_parts::<R1, 1>() }
    holds(8) fn p_strided_parts_r2() { strided_parts::<R2, 2>() }
    holds(8) fn p_strided_parts_r3() { strided_parts::<R3, 3>() }
    holds(8) fn p_strided_parts_r4() { strided_parts::<R4, 4>() }
    holds(8) fn p_strided_parts_r5() { strided_parts::<R5, 5>() }
    holds(8) fn p_strided_parts_r6() { strided_parts::<R6, 6>() }
    holds(8) fn p_strided_parts_dyn() { strided_parts::<DynRank, 3>() }
    holds(8) fn b_strided_offset_r1() { strided_offset::<R1, 1>(1 << 30) }
    holds(8) fn b_strided_offset_r2() { strided_offset::<R2, 2>(1 << 12) }
    holds(8) fn b_strided_offset_r3() { strided_offset::<R3, 3>(1 << 9) }
    holds(8) fn b_strided_offset_r4() { strided_offset::<R4, 4>(1 << 7) }
    holds(8) fn b_strided_offset_r6() { strided_offset::<R6, 6>(1 << 5) }
    holds(8) fn b_strided_offset_dyn() { strided_offset::<DynRank, 2>(1 << 8) }
    holds(8) fn b_dense_offset_r1() { dense_offset::<R1, 1>(1 << 60) }
    holds(8) fn b_dense_offset_r2() { dense_offset::<R2, 2>(1 << 5) }
    holds(8) fn b_dense_offset_r3() { dense_offset::<R3, 3>(15) }
    holds(8) fn b_dense_offset_r4() { dense_offset::<R4, 4>(5) }
    holds(8) fn b_dense_offset_r6() { dense_offset::<R6, 6>(3) }
    holds(8) fn b_strided_linear_r1() { strided_linear::<R1, 1>(1 << 10, 1 << 10) }
    holds(8) fn b_strided_linear_r2() { strided_linear::<R2, 2>(7, 1 << 8) }
    holds(8) fn b_strided_linear_r3() { strided_linear::<R3, 3>(4, 1 << 6) }
    holds(8) fn b_strided_linear_r4() { strided_linear::<R4, 4>(3, 1 << 6) }
    holds(8) fn b_dense_access_r0() { dense_access::<R0, 0>([]) }
    holds(8) fn b_dense_access_r1() { dense_access::<R1, 1>([7]) }
    holds(8) fn b_dense_access_r2() { dense_access::<R2, 2>([3, 4]) }
    holds(8) fn b_dense_access_r3() { dense_access::<R3, 3>([2, 3, 4]) }
    holds(8) fn b_dense_access_r6() { dense_access::<R6, 6>([2, 1, 2, 3, 1, 2]) }
    holds(8) fn b_dense_access_const() { dense_access::<(Const<2>, Const<3>, Const<4>), 3>([2, 3, 4]) }
    holds(8) fn b_dense_access_mixed() { dense_access::<(Dyn, Const<3>, Dyn), 3>([2, 3, 4]) }
    holds(8) fn b_dense_access_dyn() { dense_access::<DynRank, 3>([2, 3, 4]) }
    holds(8) fn b_dense_access_dynidx() {
        let mut buf = BUF;
        let d = [2, 3, 4];
        let mut v = dense_mut::<DynRank>(buf.as_mut_ptr(), &d);
        access_dyn(&mut v, d, row_major(&d));
        let mut v = dense_mut::<R3>(buf.as_mut_ptr(), &d);
        access_dyn(&mut v, d, row_major(&d));
    }
    holds(8) fn b_strided_access_dynidx() {
        let mut buf = BUF;
        let s = nd::within_n::<2>(10);
        let mid = unsafe { buf.as_mut_ptr().add(MID) };
        let mut v = strided_mut::<DynRank>(mid, &[2, 3], &s);
        access_dyn(&mut v, [2, 3], s);
        let mut v = strided_mut::<R2>(mid, &[2, 3], &s);
        access_dyn(&mut v, [2, 3], s);
    }
    holds(8) fn b_dense_wide_r1() { dense_wide::<R1, 1>(1 << 40) }
    holds(8) fn b_dense_wide_r2() { dense_wide::<R2, 2>(1 << 12) }
    holds(8) fn b_dense_wide_r3() { dense_wide::<R3, 3>(1 << 5) }
    holds(8) fn b_strided_wide_r1() { strided_wide::<R1, 1>(1 << 20, 1 << 20) }
    holds(8) fn b_strided_wide_r2() { strided_wide::<R2, 2>(1 << 10, 1 << 10) }
    holds(8) fn b_strided_wide_r4() { strided_wide::<R4, 4>(1 << 6, 1 << 6) }
    holds(8) fn b_strided_access_r1() { strided_access::<R1, 1>([7], 9) }
    holds(8) fn b_strided_access_r2() { strided_access::<R2, 2>([3, 4], 12) }
    holds(8) fn b_strided_access_r3() { strided_access::<R3, 3>([2, 3, 4], 10) }
    holds(8) fn b_strided_access_r6() { strided_access::<R6, 6>([2, 2, 2, 2, 2, 2], 10) }
    holds(8) fn b_strided_access_const() { strided_access::<(Const<2>, Const<3>), 2>([2, 3], 10) }
    holds(8) fn b_strided_access_dyn() { strided_access::<DynRank, 2>([2, 3], 10) }
    holds(8) fn b_strided_access_linear_r1() { strided_access_linear::<R1, 1>([7], 9) }
    holds(8) fn b_strided_access_linear_r2() { strided_access_linear::<R2, 2>([3, 4], 12) }
    holds(8) fn b_strided_access_linear_r3() { strided_access_linear::<R3, 3>([2, 3, 4], 10) }
    holds(8) fn b_strided_access_linear_r6() { strided_access_linear::<R6, 6>([2, 2, 2, 2, 2, 2], 10) }
    holds(8) fn b_strided_access_linear_const() { strided_access_linear::<(Const<2>, Const<3>), 2>([2, 3], 10) }
    holds(8) fn b_strided_access_linear_dyn() { strided_access_linear::<DynRank, 2>([2, 3], 10) }
    holds(8) fn b_ranges_r0() { let buf = BUF; ranges(&dense::<R0>(buf.as_ptr(), &[]), 1) }
    holds(8) fn b_ranges_r1() { let buf = BUF; ranges(&dense::<R1>(buf.as_ptr(), &[9]), 9) }
    holds(8) fn b_ranges_r3() { let buf = BUF; ranges(&dense::<R3>(buf.as_ptr(), &[2, 3, 4]), 24) }
    holds(8) fn b_ranges_dyn() { let buf = BUF; ranges(&dense::<DynRank>(buf.as_ptr(), &[2, 3]), 6) }
    holds(8) fn b_ranges_mut_r1() { let mut buf = BUF; ranges_mut(&mut dense_mut::<R1>(buf.as_mut_ptr(), &[9]), 9) }
    holds(8) fn b_ranges_mut_r2() { let mut buf = BUF; ranges_mut(&mut dense_mut::<R2>(buf.as_mut_ptr(), &[3, 4]), 12) }
    holds(8) fn b_array_access() {
        let mut a = Array::<u8, (Const<2>, Const<2>, Const<3>)>::from([[[0u8; 3]; 2]; 2]);
        let base = &a as *const _ as *const u8;
        assert!(a.as_ptr() == base);
        let idx = any_index(&[2, 2, 3]);
        let n = linear(&[2, 2, 3], &idx);
        assert!(pos(&a[idx], base) == n as isize && pos(&a[n], base) == n as isize);
        assert!(pos(&a.0[idx[0]][idx[1]][idx[2]], base) == n as isize);
        assert!(pos(&mut a[idx], base) == n as isize && pos(&mut a[n], base) == n as isize);
    }
    holds(8) fn b_array_ranges() {
        let mut a = Array::<u8, (Const<2>, Const<3>)>::from([[0u8; 3]; 2]);
        ranges(&a, 6);
        ranges_mut(&mut a, 6);
    }
    holds(8) fn b_tensor_access() {
        let mut t = Tensor::<u8, R3>::from([[[0u8, 1, 2], [3, 4, 5]], [[6, 7, 8], [9, 10, 11]]]);
        let idx = any_index(&[2, 2, 3]);
        let n = linear(&[2, 2, 3], &idx);
        let base = t.as_ptr();
        assert!(pos(&t[idx], base) == n as isize && pos(&t[n], base) == n as isize);
        assert!(t[idx] == n as u8);
        assert!(pos(&mut t[idx], base) == n as isize && pos(&mut t[n], base) == n as isize);
        access(&mut t, [2, 2, 3], [6, 3, 1]);
    }
    holds(8) fn b_view_access() {
        let buf = BUF;
        let base = buf.as_ptr();
        let v = dense::<R2>(base, &[3, 4]);
        let s = nd::within_n::<2>(12);
        let w = strided::<R2>(&buf[MID], &[3, 4], &s);
        let idx = any_index(&[3, 4]);
        let n = linear(&[3, 4], &idx);
        assert!(pos(&v[idx], base) == n as isize && pos(&v[n], base) == n as isize);
        assert!(v[idx] == n as u8);
        assert!(pos(&w[idx], &buf[MID]) == addr(&s, &idx) && pos(&w[n], &buf[MID]) == addr(&s, &idx));
    }
    holds(8) fn b_viewmut_access() {
        let mut buf = BUF;
        let base = buf.as_mut_ptr();
        let mut v = dense_mut::<R2>(base, &[3, 4]);
        let s = nd::within_n::<2>(12);
        let mid = unsafe { base.add(MID) };
        let mut w = strided_mut::<R2>(mid, &[3, 4], &s);
        let idx = any_index(&[3, 4]);
        let n = linear(&[3, 4], &idx);
        assert!(pos(&v[idx], base) == n as isize && pos(&v[n], base) == n as isize);
        assert!(pos(&mut v[idx], base) == n as isize && pos(&mut v[n], base) == n as isize);
        assert!(pos(&w[idx], mid) == addr(&s, &idx) && pos(&w[n], mid) == addr(&s, &idx));
        assert!(pos(&mut w[idx], mid) == addr(&s, &idx) && pos(&mut w[n], mid) == addr(&s, &idx));
    }
}
