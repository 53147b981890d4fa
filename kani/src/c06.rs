//! C06: reshaping.
use crate::model::*;
use crate::nd;
use mdarray::*;

/// Shape::reshape: the sizes must have the same product, at most one is inferred.
fn shape_contract<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N]) {
    let e = nd::usizes::<K>();
    let n = len(&d);
    let mut inferred = K;
    let mut p = 1;
    for i in 0..K {
        if e[i] == usize::MAX {
            nd::assume(inferred == K);
            inferred = i;
        } else {
            nd::assume(e[i] <= n);
            p *= e[i];
        }
    }
    if inferred < K {
        nd::assume(p != 0 && n % p == 0);
    } else {
        nd::assume(p == n);
    }
    let r = shape::<S>(&d).reshape(shape::<R>(&e));
    assert!(r.rank() == K && r.len() == n);
    for i in 0..K {
        assert!(r.dim(i) == if i == inferred { n / p } else { e[i] });
    }
}

/// Otherwise it panics.
fn shape_invalid<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N]) {
    let e = nd::upto_n::<K>(20);
    nd::assume(len(&e) != len(&d));
    let _ = shape::<S>(&d).reshape(shape::<R>(&e));
}

/// As above with an inferred dimension, or where the length overflows.
fn shape_invalid_inferred<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N]) {
    let mut e = nd::upto_n::<K>(20);
    let n = len(&d);
    let i = nd::upto(K - 1);
    e[i] = 1;
    let p = len(&e);
    e[i] = usize::MAX;
    if nd::bool() {
        nd::assume(p == 0 || n % p != 0);
    } else {
        let j = nd::upto(K - 1);
        nd::assume(j != i);
        e[j] = usize::MAX;
    }
    let _ = shape::<S>(&d).reshape(shape::<R>(&e));
}

/// Strides of the new shape, if they exist: from the addresses of the unit steps.
fn unit_strides<const N: usize, const K: usize>(d: &[usize; N], s: &[isize; N], e: &[usize; K]) -> [isize; K] {
    let mut t = [0; K];
    let mut n = 1;
    for j in (0..K).rev() {
        if e[j] > 1 {
            t[j] = addr(s, &unlinear(d, n));
        }
        n *= e[j];
    }
    t
}

/// Whether the new shape can be expressed by strides.
fn expressible<const N: usize, const K: usize>(d: &[usize; N], s: &[isize; N], e: &[usize; K]) -> bool {
    let t = unit_strides(d, s, e);
    let mut ok = true;
    for n in 0..len(d) {
        ok &= addr(s, &unlinear(d, n)) == addr(&t, &unlinear(e, n));
    }
    ok
}

fn strided_ok<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N], e: [usize; K], max: isize) {
    let s = nd::within_n::<N>(max);
    nd::assume(expressible(&d, &s, &e));
    let r = StridedMapping::new(shape::<S>(&d), &s).reshape(shape::<R>(&e));
    is_mapping(&r, &e, &unit_strides(&d, &s, &e));
}

fn strided_bad<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N], e: [usize; K], max: isize) {
    let s = nd::within_n::<N>(max);
    nd::assume(!expressible(&d, &s, &e));
    let _ = StridedMapping::new(shape::<S>(&d), &s).reshape(shape::<R>(&e));
}

/// Sizes with ones, where the call may also panic if the strides allow the new shape.
fn strided_partial<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N], e: [usize; K], max: isize) {
    let s = nd::within_n::<N>(max);
    let r = StridedMapping::new(shape::<S>(&d), &s).reshape(shape::<R>(&e));
    nd::ensure(expressible(&d, &s, &e));
    let t = unit_strides(&d, &s, &e);
    for i in 0..K {
        nd::ensure(r.dim(i) == e[i] && (e[i] == 1 || r.stride(i) == t[i]));
    }
}

/// Symbolic sizes and strides: where the call returns, each position has the same address.
fn strided_sym<S: Shape, R: Shape, const N: usize, const K: usize>(max: usize, smax: isize) {
    let d = nd::upto_n::<N>(max);
    let s = nd::within_n::<N>(smax);
    let e = nd::upto_n::<K>(len(&[max; N]));
    let m = StridedMapping::new(shape::<S>(&d), &s);
    let r = m.reshape(shape::<R>(&e));
    for i in 0..K {
        nd::ensure(r.dim(i) == e[i]);
    }
    let n = nd::usize();
    nd::assume(n < m.len());
    nd::ensure(r.linear_offset(n) == m.linear_offset(n));
}

/// Views that reshape without moving elements.
fn views<S: Shape, L: Layout, const N: usize, const K: usize>(v: &mut Slice<u8, S, L>, e: [usize; K], s: [isize; K])
where
    [usize; K]: IntoShape,
{
    let base = v.as_ptr();
    let n = v.len();
    is_view(&v.reshape(e), base, 0, &e, &s);
    is_view(&v.reshape_mut(e), base, 0, &e, &s);
    is_view(&v.expr().into_shape(e), base, 0, &e, &s);
    is_view(&v.expr_mut().into_shape(e), base, 0, &e, &s);
    let mut f = e;
    f[0] = usize::MAX;
    is_view(&v.reshape(f), base, 0, &e, &s);
    is_view(&v.flatten(), base, 0, &[n], &s[K - 1..]);
    is_view(&v.flatten_mut(), base, 0, &[n], &s[K - 1..]);
    is_view(&v.expr().into_flat(), base, 0, &[n], &s[K - 1..]);
    is_view(&v.expr_mut().into_flat(), base, 0, &[n], &s[K - 1..]);
}

/// Views with another shape or layout type.
fn remaps<S: Shape, L: Layout, R: Shape, K: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let base = v.as_ptr();
    is_view(&v.remap::<R, K>(), base, 0, &d, &s);
    is_view(&v.remap_mut::<R, K>(), base, 0, &d, &s);
    is_view(&v.expr().into_mapping::<R, K>(), base, 0, &d, &s);
    is_view(&v.expr_mut().into_mapping::<R, K>(), base, 0, &d, &s);
    is_view(&v.expr().into_dyn(), base, 0, &d, &s);
    is_view(&v.expr_mut().into_dyn(), base, 0, &d, &s);
}

/// Remapping to dense layout: exactly when the strides are row-major, up to size one or zero.
fn to_dense<S: Shape, const N: usize>(max: usize, smax: isize) {
    let d = nd::upto_n::<N>(max);
    let s = nd::within_n::<N>(smax);
    let m = StridedMapping::new(shape::<S>(&d), &s);
    let t = row_major(&d);
    let r: DenseMapping<S> = Mapping::remap(&m);
    for i in 0..N {
        nd::ensure(r.dim(i) == d[i]);
        nd::ensure(len(&d) == 0 || d[i] == 1 || s[i] == t[i]);
    }
    nd::ensure(m.is_contiguous());
}

/// Contiguous mappings are recognized.
fn contiguous<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let t = row_major(&d);
    let m = StridedMapping::new(shape::<S>(&d), &t);
    assert!(m.is_contiguous());
    let r: DenseMapping<S> = Mapping::remap(&m);
    is_mapping(&r, &d, &t);
}

fn is_tensor<S: Shape, const N: usize>(t: &Tensor<u8, S>, base: *const u8, d: [usize; N]) {
    assert!(t.as_ptr() == base);
    is_mapping(t.mapping(), &d, &row_major(&d));
    for i in 0..len(&d) {
        assert!(t[i] == i as u8);
    }
}

fn tensor6() -> Tensor<u8, R2> {
    Tensor::from([[0u8, 1, 2], [3, 4, 5]])
}

proofs! {
    holds(8) fn b_shape_r3_r2() { shape_contract::<R3, R2, 3, 2>([2, 3, 4]) }
    holds(8) fn b_shape_r2_r3() { shape_contract::<R2, R3, 2, 3>([3, 4]) }
    holds(8) fn b_shape_r1_r1() { shape_contract::<R1, R1, 1, 1>([7]) }
    holds(8) fn b_shape_r0_r1() { shape_contract::<R0, R1, 0, 1>([]) }
    holds(8) fn b_shape_r1_r0() { shape_contract::<R1, R0, 1, 0>([1]) }
    holds(8) fn b_shape_r2_dyn() { shape_contract::<R2, DynRank, 2, 2>([3, 4]) }
    holds(8) fn b_shape_dyn_r2() { shape_contract::<DynRank, R2, 2, 2>([3, 4]) }
    holds(8) fn b_shape_zero() { shape_contract::<R2, R2, 2, 2>([3, 0]) }
    panics(8) fn b_shape_r3_r2_panics() { shape_invalid::<R3, R2, 3, 2>([2, 3, 4]) }
    panics(8) fn b_shape_r1_r3_panics() { shape_invalid::<R1, R3, 1, 3>([12]) }
    panics(8) fn b_shape_zero_panics() { shape_invalid::<R2, R2, 2, 2>([3, 0]) }
    panics(8) fn b_shape_inferred_panics() { shape_invalid_inferred::<R2, R2, 2, 2>([3, 4]) }
    panics(8) fn b_shape_inferred3_panics() { shape_invalid_inferred::<R3, R3, 3, 3>([2, 3, 4]) }
    panics(8) fn b_shape_overflow_panics() {
        let x = nd::usize();
        nd::assume(x >= 1 << 24 && x != usize::MAX);
        let d = if nd::bool() { [1 << 40, x] } else { [x, 1 << 40] };
        let _ = shape::<R1>(&[nd::usize()]).reshape(shape::<R2>(&d));
    }
    // Strided layouts: concrete sizes, symbolic strides; success exactly if expressible.
    holds(26) fn b_s234_64() { strided_ok::<R3, R2, 3, 2>([2, 3, 4], [6, 4], 64) }
    panics(26) fn b_s234_64_panics() { strided_bad::<R3, R2, 3, 2>([2, 3, 4], [6, 4], 64) }
    holds(26) fn b_s234_2c() { strided_ok::<R3, R2, 3, 2>([2, 3, 4], [2, 12], 64) }
    panics(26) fn b_s234_2c_panics() { strided_bad::<R3, R2, 3, 2>([2, 3, 4], [2, 12], 64) }
    holds(26) fn b_s234_o() { strided_ok::<R3, R1, 3, 1>([2, 3, 4], [24], 64) }
    panics(26) fn b_s234_o_panics() { strided_bad::<R3, R1, 3, 1>([2, 3, 4], [24], 64) }
    holds(26) fn b_s234_234() { strided_ok::<R3, R3, 3, 3>([2, 3, 4], [2, 3, 4], 64) }
    holds(26) fn b_s234_324() { strided_ok::<R3, R3, 3, 3>([2, 3, 4], [3, 2, 4], 64) }
    panics(26) fn b_s234_324_panics() { strided_bad::<R3, R3, 3, 3>([2, 3, 4], [3, 2, 4], 64) }
    holds(26) fn b_s234_2322() { strided_ok::<R3, R4, 3, 4>([2, 3, 4], [2, 3, 2, 2], 64) }
    holds(26) fn b_s234_432() { strided_ok::<R3, R3, 3, 3>([2, 3, 4], [4, 3, 2], 64) }
    panics(26) fn b_s234_432_panics() { strided_bad::<R3, R3, 3, 3>([2, 3, 4], [4, 3, 2], 64) }
    holds(26) fn b_s62_2322() { strided_ok::<R2, R4, 2, 4>([6, 4], [2, 3, 2, 2], 64) }
    holds(26) fn b_s64_234() { strided_ok::<R2, R3, 2, 3>([6, 4], [2, 3, 4], 64) }
    holds(26) fn b_s64_38() { strided_ok::<R2, R2, 2, 2>([6, 4], [3, 8], 64) }
    panics(26) fn b_s64_38_panics() { strided_bad::<R2, R2, 2, 2>([6, 4], [3, 8], 64) }
    holds(26) fn b_so_234() { strided_ok::<R1, R3, 1, 3>([24], [2, 3, 4], 64) }
    holds(26) fn b_s2222_44() { strided_ok::<R4, R2, 4, 2>([2, 2, 2, 2], [4, 4], 64) }
    panics(26) fn b_s2222_44_panics() { strided_bad::<R4, R2, 4, 2>([2, 2, 2, 2], [4, 4], 64) }
    holds(26) fn b_s12_1121() { strided_ok::<R2, R4, 2, 4>([3, 2], [1, 3, 1, 2], 64) }
    holds(26) fn b_sdyn() { strided_ok::<DynRank, DynRank, 2, 1>([3, 2], [6], 64) }
    panics(26) fn b_sdyn_panics() { strided_bad::<DynRank, R1, 2, 1>([3, 2], [6], 64) }
    holds(26) fn b_szero() {
        let s = nd::within_n::<2>(64);
        let r = StridedMapping::new(shape::<R2>(&[3, 0]), &s).reshape(shape::<R3>(&[0, 2, 5]));
        is_mapping(&r, &[0, 2, 5], &[0, 0, 0]);
    }
    holds(26) fn b_s1312_32() { strided_ok::<R4, R2, 4, 2>([1, 3, 1, 2], [3, 2], 64) }
    partial(26) fn b_s1312_6_partial() { strided_partial::<R4, R1, 4, 1>([1, 3, 1, 2], [6], 64) }
    holds(26) fn b_s213_231() { strided_ok::<R3, R3, 3, 3>([2, 1, 3], [2, 3, 1], 64) }
    holds(26) fn b_s31_13() { strided_ok::<R2, R2, 2, 2>([3, 1], [1, 3], 64) }
    partial(8) fn b_sym_r2_r1_partial() { strided_sym::<R2, R1, 2, 1>(3, 4) }
    partial(8) fn b_sym_r1_r2_partial() { strided_sym::<R1, R2, 1, 2>(6, 16) }
    partial(8) fn b_sym_r2_r2_partial() { strided_sym::<R2, R2, 2, 2>(3, 2) }
    // Views.
    holds(8) fn b_views_d3() { small_dense::<R3, 3>([2, 3, 4], |v, _, _| views::<_, _, 3, 2>(v, [6, 4], [4, 1])) }
    holds(8) fn b_views_d1() { small_dense::<R1, 1>([12], |v, _, _| views::<_, _, 1, 3>(v, [2, 3, 2], [6, 2, 1])) }
    holds(8) fn b_views_d2() { small_dense::<R2, 2>([3, 4], |v, _, _| views::<_, _, 2, 2>(v, [2, 6], [6, 1])) }
    holds(8) fn b_views_dyn() { small_dense::<DynRank, 2>([3, 4], |v, _, _| views::<_, _, 2, 2>(v, [2, 6], [6, 1])) }
    holds(8) fn b_views_const() { small_dense::<(Const<3>, Const<4>), 2>([3, 4], |v, _, _| views::<_, _, 2, 2>(v, [2, 6], [6, 1])) }
    holds(8) fn b_views_s() {
        let k = nd::within(1 << 10);
        let v = &mut *strided_mut::<R2>(huge(), &[3, 4], &[4 * k, k]);
        views::<_, _, 2, 2>(v, [2, 6], [6 * k, k])
    }
    holds(8) fn b_remap_d_dyn() { small_dense::<R3, 3>([2, 3, 4], remaps::<_, _, DynRank, Dense, 3>) }
    holds(8) fn b_remap_d_s() { small_dense::<R3, 3>([2, 3, 4], remaps::<_, _, R3, Strided, 3>) }
    holds(8) fn b_remap_d_const() { small_dense::<R2, 2>([3, 4], remaps::<_, _, (Const<3>, Dyn), Dense, 2>) }
    holds(8) fn b_remap_dyn_r2() { small_dense::<DynRank, 2>([3, 4], remaps::<_, _, R2, Strided, 2>) }
    holds(8) fn b_remap_s_s() { small_strided::<R2, 2>([3, 4], 1 << 20, remaps::<_, _, DynRank, Strided, 2>) }
    holds(8) fn b_remap_s_d() {
        let v = &mut *strided_mut::<R2>(huge(), &[3, 4], &[4, 1]);
        remaps::<_, _, R2, Dense, 2>(v, [3, 4], [4, 1])
    }
    partial(8) fn b_to_dense_r1_partial() { to_dense::<R1, 1>(1 << 20, 1 << 20) }
    partial(8) fn b_to_dense_r2_partial() { to_dense::<R2, 2>(1 << 10, 1 << 20) }
    partial(8) fn b_to_dense_r3_partial() { to_dense::<R3, 3>(1 << 5, 1 << 12) }
    holds(8) fn b_contiguous_r0() { contiguous::<R0, 0>(0) }
    holds(8) fn b_contiguous_r1() { contiguous::<R1, 1>(1 << 60) }
    holds(8) fn b_contiguous_r2() { contiguous::<R2, 2>(1 << 15) }
    holds(8) fn b_contiguous_r3() { contiguous::<R3, 3>(1 << 5) }
    panics(8) fn b_remap_rank_panics() {
        let v = dense::<DynRank>(huge(), &[2, 3]);
        if nd::bool() { let _ = v.remap::<R1, Dense>(); } else { let _ = v.remap::<(Const<2>, Const<4>), Dense>(); }
    }
    panics(8) fn b_reshape_const_panics() {
        let v = dense::<R2>(huge(), &[2, 3]);
        let _ = v.reshape(shape::<(Dyn, Const<4>)>(&[nd::usize(), 4]));
    }
    // Owned arrays.
    holds(12) fn b_tensor_shape() {
        let t = tensor6();
        let p = t.as_ptr();
        is_tensor(&t.into_shape([3, 2]), p, [3, 2]);
    }
    holds(12) fn b_tensor_infer() {
        let t = tensor6();
        let p = t.as_ptr();
        is_tensor(&t.into_shape([1, !0, 2]), p, [1, 3, 2]);
    }
    holds(12) fn b_tensor_flat() {
        let t = tensor6();
        let p = t.as_ptr();
        is_tensor(&t.into_flat(), p, [6]);
    }
    holds(12) fn b_tensor_dyn() {
        let t = tensor6();
        let p = t.as_ptr();
        let t = t.into_dyn();
        is_tensor(&t, p, [2, 3]);
        is_tensor(&t.into_mapping::<(Const<2>, Dyn)>(), p, [2, 3]);
    }
    holds(12) fn b_array_shape() {
        let a = Array::<u8, (Const<2>, Const<3>)>::from([[0u8, 1, 2], [3, 4, 5]]);
        let b = a.into_shape::<(Const<3>, Const<2>)>();
        let i = any_index(&[3, 2]);
        assert!(b[i] as usize == 2 * i[0] + i[1]);
        assert!(b.0[i[0]][i[1]] as usize == 2 * i[0] + i[1]);
    }
    panics(12) fn b_array_shape_panics() {
        let a = Array::<u8, (Const<2>, Const<3>)>::from([[0u8, 1, 2], [3, 4, 5]]);
        let _ = a.into_shape::<(Const<4>, Const<2>)>();
    }
}
