//! C13: every element is dropped or handed out exactly once.
use crate::model::*;
use core::mem::forget;
use mdarray::expr::*;
use mdarray::*;

const IDS: usize = 24;
static mut DROPS: [u8; IDS] = [0; IDS];

/// An element that counts its drops.
struct El(u8);

impl Drop for El {
    fn drop(&mut self) {
        unsafe { DROPS[self.0 as usize] += 1 }
    }
}

/// Copies get identifiers of their own.
static mut NEXT: u8 = 0;

impl Clone for El {
    fn clone(&self) -> Self {
        fresh()
    }
}

fn fresh() -> El {
    unsafe {
        NEXT += 1;
        El(NEXT - 1)
    }
}

fn reset() {
    unsafe {
        NEXT = 0;
        DROPS = [0; IDS];
    }
}

fn drops(i: usize) -> u8 {
    unsafe { DROPS[i] }
}

/// Exactly the elements `0 .. n` that satisfy `f` have been dropped, once.
fn dropped(f: impl Fn(usize) -> bool) {
    for i in 0..unsafe { NEXT } as usize {
        assert!(drops(i) == f(i) as u8);
    }
}

fn all_dropped(n: usize) {
    assert!(unsafe { NEXT } as usize == n);
    dropped(|_| true);
}

fn tensor<S: Shape>(d: &[usize]) -> Tensor<El, S> {
    reset();
    let n = len(d);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(fresh());
    }
    Tensor::from(v).into_shape(shape::<S>(d))
}

fn array() -> Array<El, (Const<2>, Const<2>)> {
    reset();
    Array([[fresh(), fresh()], [fresh(), fresh()]])
}

/// The elements of the tensor are those with the given identifiers, still alive.
fn holds<S: Shape, L: Layout>(t: &Slice<El, S, L>, n: usize, id: impl Fn(usize) -> usize) {
    assert!(t.len() == n);
    let p = t.as_ptr();
    for i in 0..n {
        let x = unsafe { (*p.add(i)).0 } as usize;
        assert!(x == id(i) && drops(x) == 0);
    }
}

/// By-value iteration with `k` elements pulled and kept.
fn by_value<I: IntoIterator<Item = El>>(x: I, n: usize, k: usize) {
    let mut it = x.into_iter();
    for i in 0..k {
        let y = it.next().unwrap();
        assert!(y.0 as usize == i && drops(i) == 0);
        forget(y);
    }
    if k == n {
        assert!(it.next().is_none());
    }
    dropped(|_| false);
    drop(it);
    dropped(|i| i >= k);
}

fn drained<S: Shape, const N: usize>(d: [usize; N], start: usize, end: usize, k: usize) {
    let mut t = tensor::<S>(&d);
    let row = len(&d) / d[0];
    let (a, b) = (start * row, end * row);
    let mut it = t.drain(start..end).into_iter();
    for i in 0..k {
        let y = it.next().unwrap();
        assert!(y.0 as usize == a + i);
        forget(y);
    }
    drop(it);
    dropped(|i| i >= a + k && i < b);
    holds(&t, len(&d) - (b - a), |i| if i < a { i } else { i + b - a });
    drop(t);
    dropped(|i| i < a || i >= a + k);
}

/// Resizing drops exactly the elements outside of the new shape, and `new` are added.
fn resized<S: Shape, const N: usize>(d: [usize; N], e: [usize; N], new: usize) {
    let mut t = tensor::<S>(&d);
    let n = len(&d);
    t.resize_with(&e, fresh);
    assert!(unsafe { NEXT } as usize == n + new);
    dropped(|i| {
        let mut inside = true;
        if i < n {
            let x = unlinear(&d, i);
            for k in 0..N {
                inside &= x[k] < e[k];
            }
        }
        !inside
    });
    let p = t.as_ptr();
    for i in 0..len(&e) {
        assert!(drops(unsafe { (*p.add(i)).0 } as usize) == 0);
    }
    drop(t);
    all_dropped(n + new);
}

proofs! {
    // Dropping.
    holds(26) fn b_drop_tensor() { drop(tensor::<R2>(&[2, 3])); all_dropped(6) }
    holds(26) fn b_drop_tensor_dyn() { drop(tensor::<DynRank>(&[2, 2])); all_dropped(4) }
    holds(26) fn b_drop_array() { drop(array()); all_dropped(4) }
    holds(26) fn b_drop_empty() { drop(tensor::<R2>(&[2, 0])); all_dropped(0) }
    // Iteration by value.
    holds(26) fn b_tensor_k0() { by_value(tensor::<R2>(&[2, 2]), 4, 0) }
    holds(26) fn b_tensor_k1() { by_value(tensor::<R2>(&[2, 2]), 4, 1) }
    holds(26) fn b_tensor_k3() { by_value(tensor::<R2>(&[2, 2]), 4, 3) }
    holds(26) fn b_tensor_k4() { by_value(tensor::<R2>(&[2, 2]), 4, 4) }
    holds(26) fn b_tensor_dyn() { by_value(tensor::<DynRank>(&[3]), 3, 2) }
    holds(26) fn b_array_k0() { by_value(array(), 4, 0) }
    holds(26) fn b_array_k2() { by_value(array(), 4, 2) }
    holds(26) fn b_array_k4() { by_value(array(), 4, 4) }
    holds(26) fn b_fold() {
        let t = tensor::<R2>(&[2, 2]);
        let mut n = 0;
        t.into_expr().for_each(|x| { assert!(x.0 as usize == n && drops(n) == 0); n += 1; });
        all_dropped(4);
    }
    holds(26) fn b_fold_array() {
        let t = array();
        let mut n = 0;
        t.into_expr().for_each(|x| { assert!(x.0 as usize == n && drops(n) == 0); n += 1; });
        all_dropped(4);
    }
    holds(26) fn b_fold_rest() {
        let mut it = tensor::<R2>(&[2, 2]).into_iter();
        forget(it.next());
        let mut n = 1;
        it.for_each(|x| { assert!(x.0 as usize == n && drops(n) == 0); n += 1; });
        dropped(|i| i != 0);
    }
    holds(26) fn b_into_expr_unused() { drop(tensor::<R2>(&[2, 2]).into_expr()); all_dropped(4) }
    // Conversions.
    holds(26) fn b_into_vec() {
        let v = tensor::<R2>(&[2, 2]).into_vec();
        dropped(|_| false);
        assert!(v.len() == 4 && v[3].0 == 3);
        drop(v);
        all_dropped(4);
    }
    holds(26) fn b_into_dyn_flat_shape() {
        let t = tensor::<R2>(&[2, 2]).into_dyn().into_shape([4, 1]).into_mapping::<DynRank>().into_flat();
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    holds(26) fn b_into_scalar() {
        let x = tensor::<R2>(&[1, 1]).into_scalar();
        dropped(|_| false);
        drop(x);
        all_dropped(1);
    }
    holds(26) fn b_array_into_scalar() {
        reset();
        let x = Array::<El, (Const<1>, Const<1>)>([[fresh()]]).into_scalar();
        dropped(|_| false);
        drop(x);
        all_dropped(1);
    }
    holds(26) fn b_array_into_shape() {
        let a = array().into_shape::<(Const<4>,)>();
        dropped(|_| false);
        holds(&a, 4, |i| i);
        drop(a);
        all_dropped(4);
    }
    holds(26) fn b_array_to_tensor() {
        let t = Tensor::<El, (Const<2>, Const<2>)>::from(array());
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    holds(26) fn b_tensor_to_array() {
        let t = tensor::<(Const<2>, Const<2>)>(&[2, 2]);
        let a = Array::<El, (Const<2>, Const<2>)>::from(t);
        dropped(|_| false);
        holds(&a, 4, |i| i);
        drop(a);
        all_dropped(4);
    }
    holds(26) fn b_nested_to_tensor() {
        reset();
        let t = Tensor::<El, R2>::from([[fresh(), fresh()], [fresh(), fresh()]]);
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    holds(26) fn b_tensor_to_nested() {
        let a = <[[El; 2]; 2]>::try_from(tensor::<R2>(&[2, 2]));
        dropped(|_| false);
        match a {
            Ok(a) => { assert!(a[1][0].0 == 2); drop(a) }
            Err(_) => assert!(false),
        }
        all_dropped(4);
    }
    holds(26) fn b_tensor_to_nested_fails() {
        match <[[El; 3]; 1]>::try_from(tensor::<R2>(&[2, 2])) {
            Ok(_) => assert!(false),
            Err(t) => { dropped(|_| false); holds(&t, 4, |i| i); drop(t) }
        }
        all_dropped(4);
    }
    holds(26) fn b_raw_parts() {
        let (p, m, c) = tensor::<R2>(&[2, 2]).into_raw_parts();
        dropped(|_| false);
        let t = unsafe { Tensor::from_raw_parts(p, m, c) };
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    holds(26) fn b_vec_from() {
        let t = tensor::<R1>(&[3]);
        let v = Vec::from(t);
        dropped(|_| false);
        drop(v);
        all_dropped(3);
    }
    // Mapping.
    holds(26) fn b_map_tensor() {
        let t = tensor::<R2>(&[2, 2]).map(|x| { let i = x.0; drop(x); assert!(drops(i as usize) == 1); fresh() });
        dropped(|i| i < 4);
        holds(&t, 4, |i| i + 4);
        drop(t);
        all_dropped(8);
    }
    holds(26) fn b_map_array() {
        let t = array().map(|x| { let i = x.0; drop(x); assert!(drops(i as usize) == 1); fresh() });
        dropped(|i| i < 4);
        holds(&t, 4, |i| i + 4);
        drop(t);
        all_dropped(8);
    }
    holds(34) fn b_zip_values() {
        let t = tensor::<R2>(&[2, 2]);
        let u = [[fresh(), fresh()], [fresh(), fresh()]];
        let r = Apply::zip_with(t, Array::<El, (Const<2>, Const<2>)>(u), |(x, y)| { assert!(y.0 == x.0 + 4); y });
        dropped(|i| i < 4);
        holds(&r, 4, |i| i + 4);
        drop(r);
        all_dropped(8);
    }
    holds(34) fn b_zip_array_values() {
        let t = array();
        let u = [[fresh(), fresh()], [fresh(), fresh()]];
        let r = Apply::zip_with(t, Array::<El, (Const<2>, Const<2>)>(u), |(x, y)| { assert!(y.0 == x.0 + 4); y });
        dropped(|i| i < 4);
        holds(&r, 4, |i| i + 4);
        drop(r);
        all_dropped(8);
    }
    holds(26) fn b_eval() {
        let t = tensor::<R2>(&[2, 2]);
        let u = t.into_expr().map(|x| x).eval();
        dropped(|_| false);
        holds(&u, 4, |i| i);
        drop(u);
        all_dropped(4);
    }
    holds(34) fn b_zip_iter_partial() {
        let t = tensor::<R1>(&[3]);
        let a = Array::<El, (Const<3>,)>([fresh(), fresh(), fresh()]);
        let mut it = t.into_expr().zip(a).into_iter();
        forget(it.next());
        drop(it);
        dropped(|i| i != 0 && i != 3);
    }
    // Assigning.
    holds(26) fn b_assign_values() {
        let mut t = tensor::<R1>(&[2]);
        t.assign(Array::<El, (Const<2>,)>([fresh(), fresh()]));
        dropped(|i| i < 2);
        holds(&t, 2, |i| i + 2);
        drop(t);
        all_dropped(4);
    }
    holds(26) fn b_assign_refs() {
        let mut t = tensor::<R1>(&[2]);
        let a = Array::<El, (Const<2>,)>([fresh(), fresh()]);
        t.assign(&a);
        dropped(|i| i < 2);
        holds(&t, 2, |i| i + 4);
        drop(t);
        drop(a);
        all_dropped(6);
    }
    holds(26) fn b_fill() {
        let mut t = tensor::<R1>(&[2]);
        t.fill(fresh());
        dropped(|i| i < 3);
        holds(&t, 2, |i| i + 3);
        t.fill_with(fresh);
        dropped(|i| i < 5);
        drop(t);
        all_dropped(7);
    }
    // Cloning.
    holds(26) fn b_clone() {
        let t = tensor::<R2>(&[2, 2]);
        let u = t.clone();
        dropped(|_| false);
        holds(&u, 4, |i| i + 4);
        drop(t);
        dropped(|i| i < 4);
        drop(u);
        all_dropped(8);
    }
    holds(26) fn b_clone_from() {
        let mut t = tensor::<R2>(&[1, 2]);
        let u = Tensor::<El, R2>::from([[fresh()], [fresh()], [fresh()]]);
        t.clone_from(&u);
        holds(&t, 3, |i| i + 5);
        dropped(|i| i < 2);
        drop(t);
        drop(u);
        all_dropped(8);
    }
    holds(26) fn b_to_tensor() {
        let t = tensor::<R1>(&[3]);
        let u = t.to_tensor();
        dropped(|_| false);
        holds(&u, 3, |i| i + 3);
        drop(u);
        drop(t);
        all_dropped(6);
    }
    // Resizing.
    holds(34) fn b_resize_r1() { resized::<R1, 1>([3], [2], 0) }
    holds(34) fn b_resize_r1_grow() { resized::<R1, 1>([2], [4], 2) }
    holds(34) fn b_resize_r2() { resized::<R2, 2>([2, 3], [3, 2], 2) }
    holds(34) fn b_resize_r2_inner() { resized::<R2, 2>([2, 3], [2, 1], 0) }
    holds(34) fn b_resize_r2_shrink() { resized::<R2, 2>([3, 2], [1, 1], 0) }
    holds(34) fn b_resize_r2_outer() { resized::<R2, 2>([3, 2], [1, 2], 0) }
    holds(34) fn b_resize_r2_grow() { resized::<R2, 2>([1, 2], [2, 3], 4) }
    holds(34) fn b_resize_r2_empty() { resized::<R2, 2>([2, 2], [2, 0], 0) }
    holds(34) fn b_resize_r2_from_empty() { resized::<R2, 2>([2, 0], [2, 2], 4) }
    holds(34) fn b_resize_r3() { resized::<R3, 3>([2, 2, 2], [1, 3, 1], 1) }
    holds(34) fn b_resize_dyn() { resized::<DynRank, 2>([2, 2], [1, 3], 1) }
    holds(34) fn b_resize_value() {
        let mut t = tensor::<R2>(&[2, 1]);
        t.resize(&[2, 2], fresh());
        dropped(|i| i == 2);
        drop(t);
        all_dropped(5);
    }
    holds(26) fn b_truncate() {
        let mut t = tensor::<R2>(&[3, 2]);
        t.truncate(1);
        dropped(|i| i >= 2);
        holds(&t, 2, |i| i);
        drop(t);
        all_dropped(6);
    }
    holds(26) fn b_truncate_zero() {
        let mut t = tensor::<R1>(&[3]);
        t.truncate(0);
        all_dropped(3);
        drop(t);
        all_dropped(3);
    }
    holds(26) fn b_clear() {
        let mut t = tensor::<R2>(&[2, 2]);
        t.clear();
        all_dropped(4);
        drop(t);
        all_dropped(4);
    }
    holds(26) fn b_capacity() {
        let mut t = tensor::<R2>(&[2, 2]);
        t.reserve(4);
        t.shrink_to_fit();
        t.reserve_exact(1);
        t.shrink_to(0);
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    // Append and expand.
    holds(34) fn b_append() {
        let mut t = tensor::<R2>(&[1, 2]);
        let mut u = Tensor::<El, R2>::from([[fresh(), fresh()], [fresh(), fresh()]]);
        t.append(&mut u);
        dropped(|_| false);
        holds(&t, 6, |i| i);
        drop(u);
        dropped(|_| false);
        drop(t);
        all_dropped(6);
    }
    holds(34) fn b_expand_values() {
        let mut t = tensor::<R1>(&[2]);
        t.expand(Array::<El, (Const<2>,)>([fresh(), fresh()]));
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    holds(34) fn b_expand_refs() {
        let mut t = tensor::<R1>(&[2]);
        let a = Array::<El, (Const<2>,)>([fresh(), fresh()]);
        t.expand(&a);
        dropped(|_| false);
        holds(&t, 4, |i| if i < 2 { i } else { i + 2 });
        drop(a);
        dropped(|i| i == 2 || i == 3);
        drop(t);
        all_dropped(6);
    }
    holds(26) fn b_extend() {
        let mut t = tensor::<R1>(&[2]);
        t.extend([fresh(), fresh()]);
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
    }
    // Draining.
    holds(26) fn b_drain_k0() { drained::<R1, 1>([5], 1, 3, 0) }
    holds(26) fn b_drain_k1() { drained::<R1, 1>([5], 1, 3, 1) }
    holds(26) fn b_drain_k2() { drained::<R1, 1>([5], 1, 3, 2) }
    holds(26) fn b_drain_r2_k0() { drained::<R2, 2>([3, 2], 1, 2, 0) }
    holds(26) fn b_drain_r2_k1() { drained::<R2, 2>([3, 2], 0, 2, 1) }
    holds(26) fn b_drain_r2_k3() { drained::<R2, 2>([3, 2], 0, 2, 3) }
    holds(26) fn b_drain_r2_tail() { drained::<R2, 2>([3, 2], 1, 3, 1) }
    holds(26) fn b_drain_none() { drained::<R2, 2>([2, 2], 1, 1, 0) }
    holds(26) fn b_drain_dyn() { drained::<DynRank, 2>([3, 2], 1, 2, 1) }
    // Construction.
    holds(26) fn b_from_fn() {
        reset();
        let t = Tensor::<El, R2>::from_fn([2, 2], |_| fresh());
        dropped(|_| false);
        holds(&t, 4, |i| i);
        drop(t);
        all_dropped(4);
        reset();
        let a = Array::<El, (Const<2>, Const<2>)>::from_fn(|_| fresh());
        dropped(|_| false);
        holds(&a, 4, |i| i);
        drop(a);
        all_dropped(4);
    }
    holds(26) fn b_from_elem() {
        reset();
        let t = Tensor::<El, R2>::from_elem([2, 1], fresh());
        dropped(|i| i == 0);
        holds(&t, 2, |i| i + 1);
        drop(t);
        all_dropped(3);
        reset();
        let a = Array::<El, (Const<2>,)>::from_elem(fresh());
        dropped(|i| i == 0);
        holds(&a, 2, |i| i + 1);
        drop(a);
        all_dropped(3);
    }
    // Sequences of two operations.
    holds(34) fn b_drain_then_resize() {
        let mut t = tensor::<R2>(&[3, 2]);
        drop(t.drain(..1));
        dropped(|i| i < 2);
        t.resize_with(&[2, 1], fresh);
        dropped(|i| i < 2 || i == 3 || i == 5);
        drop(t);
        all_dropped(6);
    }
    holds(34) fn b_truncate_then_append() {
        let mut t = tensor::<R1>(&[3]);
        t.truncate(1);
        t.expand(Array::<El, (Const<2>,)>([fresh(), fresh()]));
        dropped(|i| i == 1 || i == 2);
        let t = t.map(|x| x);
        holds(&t, 3, |i| [0, 3, 4][i]);
        drop(t);
        all_dropped(5);
    }
}
