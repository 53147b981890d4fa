//! C11: resizing, truncating, clearing and capacity.
use crate::model::*;
use crate::nd;
use mdarray::*;

/// Tensor with the given sizes where element number `i` is `x + i`.
pub fn tensor<S: Shape>(d: &[usize], x: u8) -> Tensor<u8, S> {
    let n = len(d);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(x.wrapping_add(i as u8));
    }
    Tensor::from(v).into_shape(shape::<S>(d))
}

/// The tensor has the given sizes and elements.
pub fn has<S: Shape>(t: &Tensor<u8, S>, d: &[usize], want: impl Fn(usize) -> u8) {
    assert!(t.rank() == d.len());
    for i in 0..d.len() {
        assert!(t.dim(i) == d[i]);
    }
    let n = len(d);
    assert!(t.len() == n && t.capacity() >= n);
    let p = t.as_ptr();
    for i in 0..n {
        assert!(unsafe { *p.add(i) } == want(i));
    }
}

/// Elements within both shapes keep their values, the others are filled.
fn resized<S: Shape, const N: usize>(d: [usize; N], e: [usize; N]) {
    let (x, y) = (nd::u8(), nd::u8());
    let mut t = tensor::<S>(&d, x);
    t.resize(&e, y);
    has(&t, &e, |n| {
        let i = unlinear(&e, n);
        let mut inside = true;
        for k in 0..N {
            inside &= i[k] < d[k];
        }
        if inside { x.wrapping_add(linear(&d, &i) as u8) } else { y }
    });
}

fn resized_with<S: Shape, const N: usize>(d: [usize; N], e: [usize; N], new: usize) {
    let x = nd::u8();
    let mut t = tensor::<S>(&d, x);
    let mut calls = 0u8;
    t.resize_with(&e, || { calls += 1; calls ^ x });
    let mut fresh = 0;
    let p = t.as_ptr();
    for n in 0..len(&e) {
        let i = unlinear(&e, n);
        let mut inside = true;
        for k in 0..N {
            inside &= i[k] < d[k];
        }
        let y = unsafe { *p.add(n) };
        if inside {
            assert!(y == x.wrapping_add(linear(&d, &i) as u8));
        } else {
            fresh += 1;
            assert!(y == fresh ^ x);
        }
    }
    assert!(fresh as usize == new && calls as usize == new);
    for i in 0..N {
        assert!(t.dim(i) == e[i]);
    }
}

proofs! {
    holds(14) fn b_resize_r1_grow() { resized::<R1, 1>([2], [5]) }
    holds(14) fn b_resize_r1_shrink() { resized::<R1, 1>([4], [2]) }
    holds(14) fn b_resize_r1_same() { resized::<R1, 1>([3], [3]) }
    holds(14) fn b_resize_r1_zero() { resized::<R1, 1>([3], [0]) }
    holds(14) fn b_resize_r1_from_zero() { resized::<R1, 1>([0], [3]) }
    holds(34) fn b_resize_r2_outer_grow() { resized::<R2, 2>([2, 2], [3, 2]) }
    holds(34) fn b_resize_r2_outer_shrink() { resized::<R2, 2>([3, 2], [1, 2]) }
    holds(34) fn b_resize_r2_inner_grow() { resized::<R2, 2>([2, 2], [2, 3]) }
    holds(34) fn b_resize_r2_inner_shrink() { resized::<R2, 2>([2, 3], [2, 1]) }
    holds(34) fn b_resize_r2_both_grow() { resized::<R2, 2>([2, 2], [3, 3]) }
    holds(34) fn b_resize_r2_both_shrink() { resized::<R2, 2>([3, 3], [2, 2]) }
    holds(34) fn b_resize_r2_mixed() { resized::<R2, 2>([2, 3], [3, 2]) }
    holds(34) fn b_resize_r2_mixed2() { resized::<R2, 2>([3, 1], [1, 3]) }
    holds(34) fn b_resize_r2_zero() { resized::<R2, 2>([2, 2], [2, 0]) }
    holds(34) fn b_resize_r2_zero0() { resized::<R2, 2>([2, 2], [0, 3]) }
    holds(34) fn b_resize_r2_from_zero() { resized::<R2, 2>([0, 2], [2, 2]) }
    holds(34) fn b_resize_r2_from_zero1() { resized::<R2, 2>([2, 0], [2, 2]) }
    holds(34) fn b_resize_r2_from_zero2() { resized::<R2, 2>([3, 0], [1, 2]) }
    holds(34) fn b_resize_r3_middle() { resized::<R3, 3>([2, 2, 2], [2, 3, 2]) }
    holds(34) fn b_resize_r3_mid_shrink() { resized::<R3, 3>([2, 3, 1], [2, 2, 1]) }
    holds(34) fn b_resize_r3_mixed() { resized::<R3, 3>([2, 1, 3], [1, 2, 2]) }
    holds(34) fn b_resize_r3_mixed2() { resized::<R3, 3>([1, 2, 2], [2, 2, 1]) }
    holds(34) fn b_resize_r3_mixed3() { resized::<R3, 3>([3, 2, 1], [2, 1, 3]) }
    holds(34) fn b_resize_r4() { resized::<R4, 4>([1, 2, 1, 2], [2, 1, 2, 1]) }
    holds(34) fn b_resize_dyn() { resized::<DynRank, 2>([2, 2], [3, 1]) }
    holds(34) fn b_resize_dyn_outer() { resized::<DynRank, 2>([2, 2], [3, 2]) }
    holds(34) fn b_resize_const() { resized::<(Dyn, Const<2>), 2>([1, 2], [3, 2]) }
    holds(34) fn b_resize_const2() { resized::<(Const<2>, Dyn), 2>([2, 1], [2, 3]) }
    holds(14) fn b_resize_r0() { resized::<R0, 0>([], []) }
    holds(34) fn b_resize_with_r1() { resized_with::<R1, 1>([2], [4], 2) }
    holds(34) fn b_resize_with_r2() { resized_with::<R2, 2>([2, 3], [3, 2], 2) }
    holds(34) fn b_resize_with_r2b() { resized_with::<R2, 2>([2, 1], [3, 2], 4) }
    holds(34) fn b_resize_with_r3() { resized_with::<R3, 3>([2, 1, 2], [2, 2, 1], 2) }
    panics(14) fn b_resize_rank_panics() { tensor::<R2>(&[2, 2], 0).resize(&[2], 1); }
    panics(14) fn b_resize_rank_dyn_panics() { tensor::<DynRank>(&[2, 2], 0).resize(&[2, 2, 1], 1); }
    panics(14) fn b_resize_len_panics() {
        let n = nd::usize();
        nd::assume(n > usize::MAX / 4);
        tensor::<R2>(&[2, 2], 0).resize(&[n, 4], 1);
    }
    // Repeated resizing.
    holds(34) fn b_sequence() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.resize(&[3, 1], 9);
        t.resize(&[2, 2], 7);
        has(&t, &[2, 2], |n| [x, 7, x.wrapping_add(2), 7][n]);
        t.truncate(1);
        t.resize(&[2, 2], 5);
        has(&t, &[2, 2], |n| [x, 7, 5, 5][n]);
    }
    // Truncating.
    holds(14) fn b_truncate_r1() {
        let x = nd::u8();
        let mut t = tensor::<R1>(&[4], x);
        t.truncate(4);
        has(&t, &[4], |n| x.wrapping_add(n as u8));
        t.truncate(3);
        has(&t, &[3], |n| x.wrapping_add(n as u8));
        t.truncate(5);
        has(&t, &[3], |n| x.wrapping_add(n as u8));
        t.truncate(0);
        has(&t, &[0], |_| 0);
    }
    holds(14) fn b_truncate_r2() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[3, 2], x);
        t.truncate(3);
        has(&t, &[3, 2], |n| x.wrapping_add(n as u8));
        t.truncate(1);
        has(&t, &[1, 2], |n| x.wrapping_add(n as u8));
        t.truncate(0);
        has(&t, &[0, 2], |_| 0);
    }
    holds(14) fn b_truncate_r3() {
        let x = nd::u8();
        let mut t = tensor::<R3>(&[2, 1, 2], x);
        t.truncate(usize::MAX);
        has(&t, &[2, 1, 2], |n| x.wrapping_add(n as u8));
        t.truncate(1);
        has(&t, &[1, 1, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_truncate_dyn() {
        let x = nd::u8();
        let mut t = tensor::<DynRank>(&[3, 2], x);
        t.truncate(2);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_truncate_empty() {
        let mut t = tensor::<R2>(&[3, 0], 0);
        t.truncate(2);
        has(&t, &[2, 0], |_| 0);
        t.truncate(4);
        has(&t, &[2, 0], |_| 0);
    }
    panics(14) fn b_truncate_r0_panics() { tensor::<R0>(&[], 0).truncate(0); }
    panics(14) fn b_truncate_const_panics() { tensor::<(Const<2>, Dyn)>(&[2, 2], 0).truncate(1); }
    // Clearing.
    holds(14) fn b_clear() {
        let mut t = tensor::<R2>(&[2, 2], nd::u8());
        t.clear();
        has(&t, &[0, 0], |_| 0);
        assert!(t.is_empty());
        t.clear();
        has(&t, &[0, 0], |_| 0);
    }
    holds(14) fn b_clear_dyn() {
        let mut t = tensor::<DynRank>(&[2, 2], nd::u8());
        t.clear();
        assert!(t.len() == 0 && t.is_empty());
    }
    holds(14) fn b_clear_const() {
        let mut t = tensor::<(Dyn, Const<2>)>(&[2, 2], nd::u8());
        t.clear();
        has(&t, &[0, 2], |_| 0);
    }
    holds(34) fn b_clear_resize() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], 1);
        t.clear();
        t.resize(&[1, 2], x);
        has(&t, &[1, 2], |_| x);
    }
    // Capacity.
    holds(14) fn b_reserve() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.reserve(5);
        assert!(t.capacity() >= 9);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_reserve_exact() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.reserve_exact(3);
        assert!(t.capacity() >= 7);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_try_reserve() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        assert!(t.try_reserve(5).is_ok() && t.capacity() >= 9);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
        assert!(t.try_reserve(usize::MAX).is_err());
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_try_reserve_exact() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        assert!(t.try_reserve_exact(4).is_ok() && t.capacity() >= 8);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
        assert!(t.try_reserve_exact(usize::MAX - 1).is_err());
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_shrink() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.reserve(8);
        t.shrink_to(6);
        assert!(t.capacity() >= 6);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
        t.shrink_to(0);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_shrink_to_fit() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.reserve(8);
        t.shrink_to_fit();
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
        t.truncate(1);
        t.shrink_to_fit();
        has(&t, &[1, 2], |n| x.wrapping_add(n as u8));
    }
    holds(14) fn b_with_capacity() {
        let t = Tensor::<u8, R2>::with_capacity(5);
        assert!(t.capacity() >= 5);
        has(&t, &[0, 0], |_| 0);
        has(&Tensor::<u8, R1>::new(), &[0], |_| 0);
        has(&Tensor::<u8, R1>::default(), &[0], |_| 0);
    }
    panics(14) fn b_with_capacity_r0_panics() { let _ = Tensor::<u8, R0>::with_capacity(5); }
    panics(14) fn b_new_const_panics() { let _ = Tensor::<u8, (Const<2>,)>::new(); }
    panics(14) fn b_clear_r0_panics() { tensor::<R0>(&[], 0).clear(); }
    holds(14) fn b_spare() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.reserve(3);
        let c = t.capacity();
        let p = t.as_ptr();
        let s = t.spare_capacity_mut();
        assert!(s.len() == c - 4 && s.as_ptr() as usize == p as usize + 4);
        has(&t, &[2, 2], |n| x.wrapping_add(n as u8));
    }
    // Elements without size.
    holds(14) fn b_zero_sized() {
        let mut t = Tensor::<(), R2>::from_elem([2, 3], ());
        assert!(t.len() == 6 && t.capacity() >= 6);
        t.resize(&[4, 2], ());
        assert!(t.len() == 8 && t.dim(0) == 4 && t.dim(1) == 2);
        t.truncate(1);
        assert!(t.len() == 2 && t.capacity() >= 2);
    }
}
