//! C05: permuted and reordered views.
use crate::model::*;
use crate::nd;
use mdarray::index::*;
use mdarray::*;

fn permuted<T: Copy + Default, const N: usize>(a: &[T; N], p: &[usize; N]) -> [T; N] {
    let mut r = [T::default(); N];
    for i in 0..N {
        r[i] = a[p[i]];
    }
    r
}

fn reversed<T: Copy + Default, const N: usize>(a: &[T; N]) -> [T; N] {
    let mut r = [T::default(); N];
    for i in 0..N {
        r[i] = a[N - 1 - i];
    }
    r
}

fn any_perm<const N: usize>() -> [usize; N] {
    let p = nd::usizes::<N>();
    nd::assume(is_perm(&p));
    p
}

/// requires perm is a permutation; ensures dim(i) = old dim(perm[i]), stride(i) = old stride(perm[i]).
fn permute_contract<S: Shape, const N: usize>() {
    let (d, s, m) = any_strided::<S, N>();
    let p = any_perm::<N>();
    let r: StridedMapping<S> = Mapping::permute(&m, &p);
    assert!(r.rank() == N);
    for i in 0..N {
        assert!(r.dim(i) == d[p[i]] && r.stride(i) == s[p[i]]);
    }
}

fn permute_invalid<S: Shape, const N: usize>() {
    let (_, _, m) = any_strided::<S, N>();
    let p = nd::usizes::<N>();
    nd::assume(!is_perm(&p));
    let _: StridedMapping<S> = Mapping::permute(&m, &p);
}

/// From dense layout.
fn permute_dense<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let p = any_perm::<N>();
    let r: StridedMapping<S> = Mapping::permute(&DenseMapping::new(shape::<S>(&d)), &p);
    is_mapping(&r, &permuted(&d, &p), &permuted(&row_major(&d), &p));
}

/// reorder reverses the dimensions, on mappings of all sizes and strides.
fn reorder_contract<S: Shape, const N: usize>()
where
    S: Shape<Reverse: Shape<Reverse = S>>,
{
    let (d, s, m) = any_strided::<S, N>();
    let r: StridedMapping<S::Reverse> = Mapping::reorder(&m);
    assert!(r.rank() == N);
    for i in 0..N {
        assert!(r.dim(i) == d[N - 1 - i] && r.stride(i) == s[N - 1 - i]);
    }
}

/// An identity permutation keeps dense layout.
fn identity_dense<S: Shape, const N: usize>() {
    let d = nd::usizes::<N>();
    let m = DenseMapping::new(shape::<S>(&d));
    let mut p = [0; N];
    for i in 0..N {
        p[i] = i;
    }
    let r: DenseMapping<S> = Mapping::permute(&m, &p);
    assert!(r.rank() == N);
    for i in 0..N {
        assert!(r.dim(i) == d[i]);
    }
}

fn identity_dense_invalid<S: Shape, const N: usize>() {
    let d = nd::usizes::<N>();
    let m = DenseMapping::new(shape::<S>(&d));
    let p = nd::usizes::<N>();
    let mut id = true;
    for i in 0..N {
        id &= p[i] == i;
    }
    nd::assume(!id);
    let _: DenseMapping<S> = Mapping::permute(&m, &p);
}

/// All ways to permute a view with a permutation given at run time.
fn views<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N])
where
    [usize; N]: IntoShape<IntoShape: Permutation>,
{
    let base = v.as_ptr();
    let p = any_perm::<N>();
    let (e, t) = (permuted(&d, &p), permuted(&s, &p));
    is_view(&v.permute(p), base, 0, &e, &t);
    is_view(&v.permute_mut(p), base, 0, &e, &t);
    is_view(&v.expr().into_permuted(p), base, 0, &e, &t);
    is_view(&v.expr_mut().into_permuted(p), base, 0, &e, &t);
}

/// All ways to reorder a view.
fn reorders<S: Shape, L: Layout, const N: usize>(v: &mut Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let base = v.as_ptr();
    let (e, t) = (reversed(&d), reversed(&s));
    is_view(&v.reorder(), base, 0, &e, &t);
    is_view(&v.reorder_mut(), base, 0, &e, &t);
    is_view(&v.expr().into_reordered(), base, 0, &e, &t);
    is_view(&v.expr_mut().into_reordered(), base, 0, &e, &t);
}

/// Permutations known at compile time.
macro_rules! fixed {
    ($S:ty, [$($d:expr),*], ($($p:literal),*), $K:ty) => {{
        let d = [$($d),*];
        let v = dense::<$S>(huge(), &d);
        let p = [$($p),*];
        let r: View<u8, _, $K> = v.permute(($(Const::<$p>,)*));
        is_view(&r, v.as_ptr(), 0, &permuted(&d, &p), &permuted(&row_major(&d), &p));
    }};
}

macro_rules! fixed_strided {
    ($S:ty, $n:literal, $max:expr, ($($p:literal),*)) => {{
        let d = nd::upto_n::<$n>($max as usize);
        let s = nd::within_n::<$n>($max);
        let v = strided::<$S>(huge(), &d, &s);
        let p = [$($p),*];
        let r: View<u8, _, Strided> = v.permute(($(Const::<$p>,)*));
        is_view(&r, v.as_ptr(), 0, &permuted(&d, &p), &permuted(&s, &p));
    }};
}

proofs! {
    // For all sizes, strides and permutations of every static rank.
    holds(10) fn p_permute_r0() { permute_contract::<R0, 0>() }
    holds(10) fn p_permute_r1() { permute_contract::<R1, 1>() }
    holds(10) fn p_permute_r2() { permute_contract::<R2, 2>() }
    holds(10) fn p_permute_r3() { permute_contract::<R3, 3>() }
    holds(10) fn p_permute_r4() { permute_contract::<R4, 4>() }
    holds(10) fn p_permute_r5() { permute_contract::<R5, 5>() }
    holds(10) fn p_permute_r6() { permute_contract::<R6, 6>() }
    holds(10) fn b_permute_dyn3() { permute_contract::<DynRank, 3>() }
    holds(10) fn b_permute_dyn4() { permute_contract::<DynRank, 4>() }
    panics(10) fn p_permute_r1_panics() { permute_invalid::<R1, 1>() }
    panics(10) fn p_permute_r2_panics() { permute_invalid::<R2, 2>() }
    panics(10) fn p_permute_r3_panics() { permute_invalid::<R3, 3>() }
    panics(10) fn p_permute_r4_panics() { permute_invalid::<R4, 4>() }
    panics(10) fn p_permute_r6_panics() { permute_invalid::<R6, 6>() }
    panics(10) fn b_permute_dyn_panics() { permute_invalid::<DynRank, 3>() }
    holds(10) fn p_reorder_r0() { reorder_contract::<R0, 0>() }
    holds(10) fn p_reorder_r1() { reorder_contract::<R1, 1>() }
    holds(10) fn p_reorder_r2() { reorder_contract::<R2, 2>() }
    holds(10) fn p_reorder_r3() { reorder_contract::<R3, 3>() }
    holds(10) fn p_reorder_r4() { reorder_contract::<R4, 4>() }
    holds(10) fn p_reorder_r5() { reorder_contract::<R5, 5>() }
    holds(10) fn p_reorder_r6() { reorder_contract::<R6, 6>() }
    holds(10) fn b_reorder_dyn() { reorder_contract::<DynRank, 3>() }
    holds(10) fn p_identity_r1() { identity_dense::<R1, 1>() }
    holds(10) fn p_identity_r3() { identity_dense::<R3, 3>() }
    holds(10) fn p_identity_r6() { identity_dense::<R6, 6>() }
    panics(10) fn p_identity_r2_panics() { identity_dense_invalid::<R2, 2>() }
    panics(10) fn p_identity_r4_panics() { identity_dense_invalid::<R4, 4>() }
    // Dense arrays.
    holds(10) fn b_permute_dense_r2() { permute_dense::<R2, 2>(1 << 30) }
    holds(10) fn b_permute_dense_r3() { permute_dense::<R3, 3>(1 << 5) }
    holds(10) fn b_permute_dense_r4() { permute_dense::<R4, 4>(5) }
    // Views.
    holds(10) fn b_views_d1() { small_dense::<R1, 1>([5], views) }
    holds(10) fn b_views_d2() { small_dense::<R2, 2>([3, 4], views) }
    holds(10) fn b_views_d3() { small_dense::<R3, 3>([3, 2, 4], views) }
    holds(10) fn b_views_d6() { small_dense::<R6, 6>([3, 2, 4, 5, 1, 6], views) }
    holds(10) fn b_views_s2() { small_strided::<R2, 2>([3, 4], 1 << 10, views) }
    holds(10) fn b_views_s3() { small_strided::<R3, 3>([3, 2, 4], 1 << 10, views) }
    holds(10) fn b_views_dyn() { small_dense::<DynRank, 3>([3, 2, 4], views) }
    holds(10) fn b_views_mixed() { small_dense::<(Dyn, Const<2>, Dyn), 3>([3, 2, 4], views) }
    holds(10) fn b_view_dynperm() {
        let d = [3, 2, 4];
        let v = dense::<DynRank>(huge(), &d);
        let p = any_perm::<3>();
        is_view(&v.permute(&p[..]), v.as_ptr(), 0, &permuted(&d, &p), &permuted(&row_major(&d), &p));
    }
    holds(10) fn b_reorders_d0() { small_dense::<R0, 0>([], reorders) }
    holds(10) fn b_reorders_d1() { small_dense::<R1, 1>([5], reorders) }
    holds(10) fn b_reorders_d2() { small_dense::<R2, 2>([3, 4], reorders) }
    holds(10) fn b_reorders_d4() { small_dense::<R4, 4>([3, 2, 4, 5], reorders) }
    holds(10) fn b_reorders_d6() { small_dense::<R6, 6>([3, 2, 4, 5, 1, 6], reorders) }
    holds(10) fn b_reorders_s1() { small_strided::<R1, 1>([5], 1 << 20, reorders) }
    holds(10) fn b_reorders_s3() { small_strided::<R3, 3>([3, 2, 4], 1 << 20, reorders) }
    holds(10) fn b_reorders_const() { small_dense::<(Const<3>, Dyn, Const<2>), 3>([3, 4, 2], reorders) }
    holds(10) fn b_reorders_dyn() { small_dense::<DynRank, 3>([3, 2, 4], reorders) }
    holds(10) fn b_reorder_twice() {
        small_strided::<R3, 3>([3, 2, 4], 1 << 20, |v, d, s| {
            let r = v.reorder();
            is_view(&r.reorder(), v.as_ptr(), 0, &d, &s);
        })
    }
    // Static permutations, with the layout that results.
    holds(10) fn b_fixed_0() { fixed!(R1, [nd::upto(1 << 30)], (0), Dense) }
    holds(10) fn b_fixed_01() { fixed!(R2, [nd::upto(1 << 10), nd::upto(1 << 10)], (0, 1), Dense) }
    holds(10) fn b_fixed_10() { fixed!(R2, [nd::upto(1 << 10), nd::upto(1 << 10)], (1, 0), Strided) }
    holds(10) fn b_fixed_012() { fixed!(R3, [3, 2, 4], (0, 1, 2), Dense) }
    holds(10) fn b_fixed_021() { fixed!(R3, [3, 2, 4], (0, 2, 1), Strided) }
    holds(10) fn b_fixed_102() { fixed!(R3, [3, 2, 4], (1, 0, 2), Strided) }
    holds(10) fn b_fixed_120() { fixed!(R3, [3, 2, 4], (1, 2, 0), Strided) }
    holds(10) fn b_fixed_201() { fixed!(R3, [3, 2, 4], (2, 0, 1), Strided) }
    holds(10) fn b_fixed_210() { fixed!(R3, [3, 2, 4], (2, 1, 0), Strided) }
    holds(10) fn b_fixed_0132() { fixed!(R4, [3, 2, 4, 5], (0, 1, 3, 2), Strided) }
    holds(10) fn b_fixed_3012() { fixed!(R4, [3, 2, 4, 5], (3, 0, 1, 2), Strided) }
    holds(10) fn b_fixed_01234() { fixed!(R5, [3, 2, 4, 5, 2], (0, 1, 2, 3, 4), Dense) }
    holds(10) fn b_fixed_205341() { fixed!(R6, [3, 2, 4, 5, 1, 6], (2, 0, 5, 3, 4, 1), Strided) }
    holds(10) fn b_fixed_const_120() { fixed!((Const<3>, Const<2>, Dyn), [3, 2, 4], (1, 2, 0), Strided) }
    holds(10) fn b_fixed_s_10() { fixed_strided!(R2, 2, 1 << 20, (1, 0)) }
    holds(10) fn b_fixed_s_01() { fixed_strided!(R2, 2, 1 << 20, (0, 1)) }
    holds(10) fn b_fixed_s_201() { fixed_strided!(R3, 3, 1 << 20, (2, 0, 1)) }
    holds(10) fn b_fixed_s_0231() { fixed_strided!(R4, 4, 1 << 20, (0, 2, 3, 1)) }
}
