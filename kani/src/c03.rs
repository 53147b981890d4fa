//! C03: subarray views.
use crate::model::*;
use crate::nd;
use mdarray::index::*;
use mdarray::*;
use std::ops::*;

/// What an index of one dimension selects: the elements `start + step * i` for `i < len`.
#[derive(Clone, Copy)]
pub struct Sel {
    start: usize,
    step: isize,
    len: usize,
    keep: bool,
}

/// A kind of index with an arbitrary in-bounds value, and what it selects.
pub trait Kind {
    type Idx: DimIndex;
    fn make(size: usize) -> (Self::Idx, Sel);
}

fn sub(size: usize) -> (usize, usize) {
    let (a, b) = (nd::usize(), nd::usize());
    nd::assume(a <= b && b <= size);
    (a, b)
}

fn sel(start: usize, end: usize) -> Sel {
    Sel { start, step: 1, len: end - start, keep: true }
}

macro_rules! kinds {
    ($($name:ident $ty:ty, |$size:ident| $body:expr;)*) => {
        $(pub struct $name;
        impl Kind for $name {
            type Idx = $ty;
            fn make($size: usize) -> ($ty, Sel) { $body }
        })*
    };
}

kinds! {
    I usize, |n| { let i = nd::usize(); nd::assume(i < n); (i, Sel { start: i, step: 1, len: 1, keep: false }) };
    F RangeFull, |n| (.., sel(0, n));
    R Range<usize>, |n| { let (a, b) = sub(n); (a..b, sel(a, b)) };
    RF RangeFrom<usize>, |n| { let (a, _) = sub(n); (a.., sel(a, n)) };
    RT RangeTo<usize>, |n| { let (_, b) = sub(n); (..b, sel(0, b)) };
    RI RangeInclusive<usize>, |n| { let (a, b) = sub(n); nd::assume(b < n); (a..=b, sel(a, b + 1)) };
    RTI RangeToInclusive<usize>, |n| { let (_, b) = sub(n); nd::assume(b < n); (..=b, sel(0, b + 1)) };
    B0 (Bound<usize>, Bound<usize>), |n| { let (a, b) = sub(n); ((Bound::Included(a), Bound::Excluded(b)), sel(a, b)) };
    B1 (Bound<usize>, Bound<usize>), |n| { let (a, b) = sub(n); nd::assume(a < b); ((Bound::Excluded(a), Bound::Included(b - 1)), sel(a + 1, b)) };
    B2 (Bound<usize>, Bound<usize>), |n| { let (a, _) = sub(n); ((Bound::Included(a), Bound::Unbounded), sel(a, n)) };
    B3 (Bound<usize>, Bound<usize>), |n| { let (_, b) = sub(n); nd::assume(b < n); ((Bound::Unbounded, Bound::Included(b)), sel(0, b + 1)) };
    SR StepRange<Range<usize>, isize>, |n| { let (a, b) = sub(n); let (k, s) = stepped(a, b); (step(a..b, k), s) };
    SF StepRange<RangeFull, isize>, |n| { let (k, s) = stepped(0, n); (step(.., k), s) };
    SRF StepRange<RangeFrom<usize>, isize>, |n| { let (a, _) = sub(n); let (k, s) = stepped(a, n); (step(a.., k), s) };
    SRI StepRange<RangeInclusive<usize>, isize>, |n| { let (a, b) = sub(n); nd::assume(b < n); let (k, s) = stepped(a, b + 1); (step(a..=b, k), s) };
}

/// Stepping over `a..b`: forwards from the first or backwards from the last index.
fn stepped(a: usize, b: usize) -> (isize, Sel) {
    let k = nd::within(6);
    nd::assume(k != 0);
    let n = b - a;
    let len = match k.unsigned_abs() {
        1 => n,
        2 => (n + 1) / 2,
        3 => (n + 2) / 3,
        4 => (n + 3) / 4,
        5 => (n + 4) / 5,
        _ => (n + 5) / 6,
    };
    let start = if k < 0 && n > 0 { b - 1 } else { a };
    (k, Sel { start, step: k, len, keep: true })
}

/// The result has the selected sizes and strides, and starts at the first selected element.
fn check<M: Mapping>(offset: isize, r: &M, s: &[isize], e: &[Sel]) {
    let mut rank = 0;
    let mut empty = false;
    let mut start = 0;
    for i in (0..s.len()).rev() {
        start += s[i] * e[i].start as isize;
        empty |= e[i].len == 0;
    }
    for i in 0..s.len() {
        if e[i].keep {
            assert!(r.dim(rank) == e[i].len);
            assert!(empty || e[i].len == 1 || r.stride(rank) == s[i] * e[i].step);
            rank += 1;
        }
    }
    assert!(r.rank() == rank);
    assert!(empty || offset == start);
}

macro_rules! mapping_level {
    ($S:ty, $m:expr, $d:expr, $s:expr; $($k:ident $i:tt),*) => {{
        let made = ($($k::make($d[$i]),)*);
        let e = [$(made.$i.1),*];
        let (offset, r) = ViewIndex::view_index::<$S, _>(($(made.$i.0,)*), &$m);
        check(offset, &r, &$s, &e);
    }};
}

/// Dense arrays of symbolic size.
macro_rules! dense_case {
    ($S:ty, $n:literal, $max:expr; $($k:ident $i:tt),*) => {{
        let d = nd::upto_n::<$n>($max);
        let m = DenseMapping::new(shape::<$S>(&d));
        mapping_level!($S, m, d, row_major(&d); $($k $i),*)
    }};
}

/// Strided arrays of symbolic size and strides.
macro_rules! strided_case {
    ($S:ty, $n:literal, $max:expr; $($k:ident $i:tt),*) => {{
        let d = nd::upto_n::<$n>($max as usize);
        let s = nd::within_n::<$n>($max);
        let m = StridedMapping::new(shape::<$S>(&d), &s);
        mapping_level!($S, m, d, s; $($k $i),*)
    }};
}

/// Every element of the view is the parent element that the request names.
fn elements<S: Shape, L: Layout, const N: usize>(r: &Slice<u8, S, L>, base: *const u8, d: [usize; N], s: [isize; N], e: [Sel; N]) {
    let mut rank = 0;
    let mut idx = [0usize; N];
    let mut want = 0isize;
    let mut n = 1;
    for i in 0..N {
        if e[i].keep {
            assert!(r.dim(rank) == e[i].len);
            n *= e[i].len;
            if e[i].len > 0 {
                let k = nd::usize();
                nd::assume(k < e[i].len);
                idx[rank] = k;
                let p = e[i].start as isize + e[i].step * k as isize;
                assert!(p >= 0 && (p as usize) < d[i]);
                want += s[i] * p;
            }
            rank += 1;
        } else {
            want += s[i] * e[i].start as isize;
        }
    }
    assert!(r.rank() == rank && r.len() == n);
    if n > 0 {
        assert!(pos(&r[&idx[..rank]], base) == want);
    }
}

macro_rules! view_level {
    ($S:ty, [$($d:literal),*]; $($k:ident $i:tt),*) => {{
        let mut buf = BUF;
        let d = [$($d),*];
        let base = buf.as_mut_ptr();
        let made = ($($k::make(d[$i]),)*);
        let e = [$(made.$i.1),*];
        let mut v = dense_mut::<$S>(base, &d);
        if nd::bool() {
            elements(&v.view($(made.$i.0),*), base, d, row_major(&d), e);
        } else {
            elements(&v.view_mut($(made.$i.0),*), base, d, row_major(&d), e);
        }
    }};
}

macro_rules! strided_view_level {
    ($S:ty, [$($d:literal),*], $max:literal; $($k:ident $i:tt),*) => {{
        let mut buf = BUF;
        let d = [$($d),*];
        let s = nd::within_n(($max) as isize);
        let base = unsafe { buf.as_mut_ptr().add(MID) };
        let made = ($($k::make(d[$i]),)*);
        let e = [$(made.$i.1),*];
        let mut v = strided_mut::<$S>(base, &d, &s);
        if nd::bool() {
            elements(&v.view($(made.$i.0),*), base, d, s, e);
        } else {
            elements(&v.view_mut($(made.$i.0),*), base, d, s, e);
        }
    }};
}

proofs! {
    // Rank 1, every kind of index.
    holds(8) fn p_d1_i() { dense_case!(R1, 1, isize::MAX as usize; I 0) }
    holds(8) fn p_d1_f() { dense_case!(R1, 1, isize::MAX as usize; F 0) }
    holds(8) fn p_d1_r() { dense_case!(R1, 1, isize::MAX as usize; R 0) }
    holds(8) fn p_d1_rf() { dense_case!(R1, 1, isize::MAX as usize; RF 0) }
    holds(8) fn p_d1_rt() { dense_case!(R1, 1, isize::MAX as usize; RT 0) }
    holds(8) fn p_d1_ri() { dense_case!(R1, 1, isize::MAX as usize; RI 0) }
    holds(8) fn p_d1_rti() { dense_case!(R1, 1, isize::MAX as usize; RTI 0) }
    holds(8) fn p_d1_b0() { dense_case!(R1, 1, isize::MAX as usize; B0 0) }
    holds(8) fn p_d1_b1() { dense_case!(R1, 1, isize::MAX as usize; B1 0) }
    holds(8) fn p_d1_b2() { dense_case!(R1, 1, isize::MAX as usize; B2 0) }
    holds(8) fn p_d1_b3() { dense_case!(R1, 1, isize::MAX as usize; B3 0) }
    holds(8) fn b_d1_sr() { dense_case!(R1, 1, 1 << 8; SR 0) }
    holds(8) fn b_s1_i() { strided_case!(R1, 1, 1 << 30; I 0) }
    holds(8) fn b_s1_f() { strided_case!(R1, 1, 1 << 30; F 0) }
    holds(8) fn b_s1_r() { strided_case!(R1, 1, 1 << 20; R 0) }
    holds(8) fn b_s1_sr() { strided_case!(R1, 1, 1 << 6; SR 0) }
    holds(8) fn b_s1_sf() { strided_case!(R1, 1, 1 << 6; SF 0) }
    holds(8) fn b_s1_srf() { strided_case!(R1, 1, 1 << 6; SRF 0) }
    holds(8) fn b_s1_sri() { strided_case!(R1, 1, 1 << 6; SRI 0) }
    // Rank 2, every combination of index, full range, range and stepped range.
    holds(8) fn b_d2_ii() { dense_case!(R2, 2, 1 << 20; I 0, I 1) }
    holds(8) fn b_d2_if() { dense_case!(R2, 2, 1 << 20; I 0, F 1) }
    holds(8) fn b_d2_ir() { dense_case!(R2, 2, 1 << 20; I 0, R 1) }
    holds(8) fn b_d2_is() { dense_case!(R2, 2, 1 << 6; I 0, SR 1) }
    holds(8) fn b_d2_fi() { dense_case!(R2, 2, 1 << 20; F 0, I 1) }
    holds(8) fn b_d2_ff() { dense_case!(R2, 2, 1 << 20; F 0, F 1) }
    holds(8) fn b_d2_fr() { dense_case!(R2, 2, 1 << 20; F 0, R 1) }
    holds(8) fn b_d2_fs() { dense_case!(R2, 2, 1 << 6; F 0, SR 1) }
    holds(8) fn b_d2_ri() { dense_case!(R2, 2, 1 << 20; R 0, I 1) }
    holds(8) fn b_d2_rf() { dense_case!(R2, 2, 1 << 20; R 0, F 1) }
    holds(8) fn b_d2_rr() { dense_case!(R2, 2, 1 << 15; R 0, R 1) }
    holds(8) fn b_d2_rs() { dense_case!(R2, 2, 1 << 6; R 0, SR 1) }
    holds(8) fn b_d2_si() { dense_case!(R2, 2, 1 << 6; SR 0, I 1) }
    holds(8) fn b_d2_sf() { dense_case!(R2, 2, 1 << 6; SR 0, F 1) }
    holds(8) fn b_d2_sr() { dense_case!(R2, 2, 1 << 6; SR 0, R 1) }
    holds(8) fn b_d2_ss() { dense_case!(R2, 2, 1 << 5; SR 0, SF 1) }
    holds(8) fn b_s2_if() { strided_case!(R2, 2, 1 << 16; I 0, F 1) }
    holds(8) fn b_s2_ri() { strided_case!(R2, 2, 1 << 12; RF 0, I 1) }
    holds(8) fn b_s2_fr() { strided_case!(R2, 2, 1 << 12; F 0, RT 1) }
    holds(8) fn b_s2_rr() { strided_case!(R2, 2, 1 << 10; RI 0, RTI 1) }
    holds(8) fn b_s2_fs() { strided_case!(R2, 2, 1 << 6; F 0, SR 1) }
    // Higher ranks.
    holds(8) fn b_d3_iff() { dense_case!(R3, 3, 1 << 6; I 0, F 1, F 2) }
    holds(8) fn b_d3_iif() { dense_case!(R3, 3, 1 << 6; I 0, I 1, F 2) }
    holds(8) fn b_d3_fif() { dense_case!(R3, 3, 1 << 6; F 0, I 1, F 2) }
    holds(8) fn b_d3_ffi() { dense_case!(R3, 3, 1 << 6; F 0, F 1, I 2) }
    holds(8) fn b_d3_iri() { dense_case!(R3, 3, 1 << 6; I 0, R 1, I 2) }
    holds(8) fn b_d3_rff() { dense_case!(R3, 3, 1 << 6; R 0, F 1, F 2) }
    holds(8) fn b_d3_irf() { dense_case!(R3, 3, 1 << 6; I 0, R 1, F 2) }
    holds(8) fn b_d3_iir() { dense_case!(R3, 3, 1 << 6; I 0, I 1, R 2) }
    holds(8) fn b_d3_frf() { dense_case!(R3, 3, 1 << 6; F 0, R 1, F 2) }
    holds(8) fn b_d3_ffr() { dense_case!(R3, 3, 1 << 6; F 0, F 1, R 2) }
    holds(8) fn b_d3_rfr() { dense_case!(R3, 3, 1 << 6; RF 0, F 1, RT 2) }
    holds(8) fn b_d3_rif() { dense_case!(R3, 3, 1 << 6; R 0, I 1, F 2) }
    holds(8) fn b_s3_fif() { strided_case!(R3, 3, 1 << 8; F 0, I 1, F 2) }
    holds(8) fn b_s3_rri() { strided_case!(R3, 3, 1 << 8; R 0, R 1, I 2) }
    holds(8) fn b_d4_ifri() { dense_case!(R4, 4, 1 << 3; I 0, F 1, R 2, I 3) }
    holds(8) fn b_d4_rfff() { dense_case!(R4, 4, 1 << 3; R 0, F 1, F 2, F 3) }
    holds(8) fn b_s4_firf() { strided_case!(R4, 4, 1 << 8; F 0, I 1, R 2, F 3) }
    holds(8) fn b_s5_iffir() { strided_case!(R5, 5, 1 << 6; I 0, F 1, F 2, I 3, R 4) }
    holds(8) fn b_s6_fififr() { strided_case!(R6, 6, 1 << 6; F 0, I 1, F 2, I 3, F 4, R 5) }
    holds(8) fn b_d6_ffffff() { dense_case!(R6, 6, 3; F 0, F 1, F 2, F 3, F 4, F 5) }
    // Constant-sized dimensions.
    holds(8) fn b_const_fr() {
        let m = DenseMapping::new(shape::<(Const<3>, Const<4>)>(&[3, 4]));
        mapping_level!((Const<3>, Const<4>), m, [3, 4], [4, 1]; F 0, R 1)
    }
    holds(8) fn b_const_if() {
        let m = DenseMapping::new(shape::<(Const<3>, Const<4>)>(&[3, 4]));
        mapping_level!((Const<3>, Const<4>), m, [3, 4], [4, 1]; I 0, F 1)
    }
    holds(8) fn b_mixed_rif() {
        let d = [nd::upto(1 << 10), 3, 4];
        let m = DenseMapping::new(shape::<(Dyn, Const<3>, Const<4>)>(&d));
        mapping_level!((Dyn, Const<3>, Const<4>), m, d, [12, 4, 1]; R 0, I 1, F 2)
    }
    // Views of real arrays, element by element.
    holds(8) fn b_view1_r() { view_level!(R1, [9]; R 0) }
    holds(8) fn b_view1_s() { view_level!(R1, [9]; SR 0) }
    holds(8) fn b_view2_ri() { view_level!(R2, [3, 5]; R 0, I 1) }
    holds(8) fn b_view2_is() { view_level!(R2, [3, 5]; I 0, SF 1) }
    holds(8) fn b_view2_rr() { view_level!(R2, [4, 5]; RI 0, RF 1) }
    holds(8) fn b_view3_rif() { view_level!(R3, [3, 2, 4]; R 0, I 1, F 2) }
    holds(8) fn b_view3_fri() { view_level!(R3, [3, 4, 2]; F 0, RT 1, I 2) }
    holds(8) fn b_view3_empty() { view_level!(R3, [2, 0, 3]; R 0, R 1, R 2) }
    holds(8) fn b_view_mixed() { view_level!((Dyn, Const<3>), [4, 3]; R 0, F 1) }
    holds(8) fn b_view4() { view_level!(R4, [2, 3, 2, 2]; I 0, R 1, F 2, I 3) }
    holds(8) fn b_view5() { view_level!(R5, [2, 2, 2, 2, 2]; F 0, I 1, F 2, I 3, R 4) }
    holds(8) fn b_view6() { view_level!(R6, [2, 2, 2, 2, 2, 2]; I 0, I 1, F 2, I 3, R 4, I 5) }
    holds(8) fn b_sview1_s() { strided_view_level!(R1, [7], 9; SR 0) }
    holds(8) fn b_sview2_ri() { strided_view_level!(R2, [3, 4], 12; R 0, I 1) }
    holds(8) fn b_sview2_rs() { strided_view_level!(R2, [3, 4], 12; F 0, SR 1) }
    holds(8) fn b_sview3() { strided_view_level!(R3, [2, 3, 2], 10; F 0, R 1, I 2) }
    // Views of views, and copied subarrays.
    holds(12) fn b_view_of_view() {
        let buf = BUF;
        let v = dense::<R2>(buf.as_ptr(), &[4, 5]);
        let (r0, e0) = R::make(4);
        let (r1, e1) = R::make(5);
        let (r2, e2) = R::make(e0.len);
        let (r3, e3) = SR::make(e1.len);
        let w = v.view(r0, r1);
        let x = w.view(r2, r3);
        assert!(x.dim(0) == e2.len && x.dim(1) == e3.len);
        if e2.len > 0 && e3.len > 0 {
            let (i, j) = (nd::usize(), nd::usize());
            nd::assume(i < e2.len && j < e3.len);
            let a = e0.start + e2.start + i;
            let b = (e1.start + e3.start) as isize + e3.step * j as isize;
            assert!(x[[i, j]] as isize == 5 * a as isize + b);
        }
    }
    holds(12) fn b_tensor_copy() {
        let buf = BUF;
        let v = dense::<R2>(buf.as_ptr(), &[4, 3]);
        let t = v.tensor(1..3, 2);
        assert!(t.rank() == 1 && t.dim(0) == 2 && t[[0]] == 5 && t[[1]] == 8);
        let t = v.tensor(2, step(.., -2));
        assert!(t.rank() == 1 && t.dim(0) == 2 && t[[0]] == 8 && t[[1]] == 6);
    }
    holds(12) fn b_array_copy() {
        let buf = BUF;
        let v = dense::<(Dyn, Const<3>)>(buf.as_ptr(), &[4, 3]);
        let i = nd::upto(3);
        let a = v.array(i, ..);
        assert!(a.0[0] as usize == 3 * i && a.0[1] as usize == 3 * i + 1 && a.0[2] as usize == 3 * i + 2);
    }
}
