//! C12: append, expand and drain.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::*;

fn tensor<S: Shape>(d: &[usize], x: u8) -> Tensor<u8, S> {
    let n = len(d);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(x.wrapping_add(i as u8));
    }
    Tensor::from(v).into_shape(shape::<S>(d))
}

fn has<S: Shape>(t: &Tensor<u8, S>, d: &[usize], want: impl Fn(usize) -> u8) {
    assert!(t.rank() == d.len());
    for i in 0..d.len() {
        assert!(t.dim(i) == d[i]);
    }
    let n = len(d);
    assert!(t.len() == n && t.capacity() >= n);
    let p = t.as_ptr();
    for i in 0..n {
        assert!(unsafe { *p.add(i) } == want(i));
    }
}

/// Appending `b` to `a`, both starting with symbolic values.
fn appended<S: Shape, const N: usize>(a: [usize; N], b: [usize; N]) {
    let (x, y) = (nd::u8(), nd::u8());
    let mut t = tensor::<S>(&a, x);
    let mut u = tensor::<S>(&b, y);
    t.append(&mut u);
    let (n, m) = (len(&a), len(&b));
    let mut d = if n == 0 && m > 0 { b } else { a };
    if n > 0 && m > 0 {
        d[0] = a[0] + b[0];
    }
    has(&t, &d, |i| if i < n { x.wrapping_add(i as u8) } else { y.wrapping_add((i - n) as u8) });
    let mut e = b;
    e[0] = 0;
    has(&u, &e, |_| 0);
}

/// Draining rows `start..end` after pulling `k` of the elements.
fn drained<S: Shape, const N: usize>(d: [usize; N], start: usize, end: usize, k: usize) {
    let x = nd::u8();
    let mut t = tensor::<S>(&d, x);
    let row = len(&d) / d[0];
    let count = (end - start) * row;
    let cap = t.capacity();
    let mut it = t.drain(start..end).into_iter();
    assert!(it.len() == count);
    for i in 0..k {
        match it.next() {
            Some(y) => assert!(y == x.wrapping_add((start * row + i) as u8)),
            None => assert!(false),
        }
    }
    assert!(it.len() == count - k);
    drop(it);
    let mut e = d;
    e[0] = d[0] - (end - start);
    has(&t, &e, |i| x.wrapping_add((if i < start * row { i } else { i + count }) as u8));
    assert!(t.capacity() == cap);
}

/// The same folded, with the shape of the expression.
fn drained_fold<S: Shape, const N: usize>(d: [usize; N], start: usize, end: usize) {
    let x = nd::u8();
    let mut t = tensor::<S>(&d, x);
    let row = len(&d) / d[0];
    let count = (end - start) * row;
    let mut e = d;
    e[0] = end - start;
    {
        let expr = t.drain(start..end);
        assert!(expr.rank() == N && expr.len() == count);
        for i in 0..N {
            assert!(expr.dim(i) == e[i]);
        }
        assert!(expr.as_ref().len() == count);
        let mut n = 0;
        expr.for_each(|y| {
            assert!(y == x.wrapping_add((start * row + n) as u8));
            n += 1;
        });
        assert!(n == count);
    }
    e[0] = d[0] - (end - start);
    has(&t, &e, |i| x.wrapping_add((if i < start * row { i } else { i + count }) as u8));
}

/// Ranges given in different ways.
fn range_kind(kind: u8, start: usize, end: usize) {
    let mut t = tensor::<R2>(&[4, 1], 10);
    match kind {
        0 => drop(t.drain(..)),
        1 => drop(t.drain(1..)),
        2 => drop(t.drain(..3)),
        3 => drop(t.drain(1..=2)),
        4 => drop(t.drain(..=1)),
        5 => drop(t.drain((core::ops::Bound::Excluded(0), core::ops::Bound::Included(2)))),
        _ => drop(t.drain((core::ops::Bound::Excluded(1), core::ops::Bound::Unbounded))),
    }
    has(&t, &[4 - (end - start), 1], |i| 10 + (if i < start { i } else { i + end - start }) as u8);
}

proofs! {
    // Append.
    holds(34) fn b_append_r1() { appended::<R1, 1>([2], [3]) }
    holds(34) fn b_append_r2() { appended::<R2, 2>([2, 2], [1, 2]) }
    holds(34) fn b_append_r2b() { appended::<R2, 2>([1, 3], [2, 3]) }
    holds(34) fn b_append_r3() { appended::<R3, 3>([1, 2, 2], [2, 2, 2]) }
    holds(34) fn b_append_dyn() { appended::<DynRank, 2>([1, 2], [2, 2]) }
    holds(34) fn b_append_const() { appended::<(Dyn, Const<2>), 2>([1, 2], [2, 2]) }
    holds(34) fn b_append_to_empty() { appended::<R2, 2>([0, 0], [2, 2]) }
    holds(34) fn b_append_to_empty1() { appended::<R2, 2>([0, 3], [2, 2]) }
    holds(34) fn b_append_empty() { appended::<R2, 2>([2, 2], [0, 2]) }
    holds(34) fn b_append_empty_any() { appended::<R2, 2>([2, 2], [0, 3]) }
    holds(34) fn b_append_both_empty() { appended::<R1, 1>([0], [0]) }
    panics(34) fn b_append_mismatch_panics() { tensor::<R2>(&[2, 2], 0).append(&mut tensor::<R2>(&[2, 1], 0)); }
    panics(34) fn b_append_mismatch3_panics() { tensor::<R3>(&[1, 2, 2], 0).append(&mut tensor::<R3>(&[1, 1, 2], 0)); }
    panics(34) fn b_append_mismatch_dyn_panics() { tensor::<DynRank>(&[2, 2], 0).append(&mut tensor::<DynRank>(&[2], 0)); }
    panics(34) fn b_append_const_panics() { tensor::<(Const<2>, Dyn)>(&[2, 1], 0).append(&mut tensor::<(Const<2>, Dyn)>(&[2, 1], 0)); }
    panics(34) fn b_append_r0_panics() { tensor::<R0>(&[], 0).append(&mut tensor::<R0>(&[], 0)); }
    holds(34) fn b_append_twice() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[1, 2], x);
        t.append(&mut tensor::<R2>(&[1, 2], x));
        t.append(&mut tensor::<R2>(&[1, 2], x));
        has(&t, &[3, 2], |i| x.wrapping_add((i % 2) as u8));
    }
    holds(34) fn b_append_back() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[1, 2], x);
        let mut u = tensor::<R2>(&[1, 2], x.wrapping_add(2));
        t.append(&mut u);
        u.append(&mut t);
        has(&u, &[2, 2], |i| x.wrapping_add(i as u8));
        has(&t, &[0, 2], |_| 0);
    }
    // Expand.
    holds(34) fn b_expand_view() {
        let x = nd::u8();
        let buf = BUF;
        let mut t = tensor::<R2>(&[1, 2], x);
        t.expand(strided::<R2>(buf.as_ptr(), &[2, 2], &[20, 7]));
        has(&t, &[3, 2], |i| [x, x.wrapping_add(1), 0, 7, 20, 27][i]);
    }
    holds(34) fn b_expand_owned() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[1, 2], x);
        t.expand(Array::<u8, (Const<1>, Const<2>)>::from([[4, 5]]));
        t.expand(tensor::<R2>(&[1, 2], 8));
        has(&t, &[3, 2], |i| [x, x.wrapping_add(1), 4, 5, 8, 9][i]);
    }
    holds(34) fn b_expand_ref() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[1, 2], x);
        let u = tensor::<R2>(&[1, 2], x);
        t.expand(&u);
        has(&t, &[2, 2], |i| x.wrapping_add((i % 2) as u8));
        has(&u, &[1, 2], |i| x.wrapping_add(i as u8));
    }
    holds(34) fn b_expand_fn() {
        let x = nd::u8();
        let mut t = tensor::<R1>(&[2], x);
        t.expand(from_fn([3], |i: &[usize]| 50 + i[0] as u8));
        has(&t, &[5], |i| if i < 2 { x.wrapping_add(i as u8) } else { 48 + i as u8 });
    }
    holds(34) fn b_expand_empty_target() {
        let x = nd::u8();
        let mut t = Tensor::<u8, R2>::new();
        t.expand(from_elem([2, 3], x));
        has(&t, &[2, 3], |_| x);
    }
    holds(34) fn b_expand_empty_dyn() {
        let x = nd::u8();
        let mut t = Tensor::<u8, DynRank>::new();
        t.expand(from_elem([2, 2], x));
        has(&t, &[2, 2], |_| x);
    }
    holds(34) fn b_expand_nothing() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[2, 2], x);
        t.expand(from_elem([3, 0], x));
        has(&t, &[2, 2], |i| x.wrapping_add(i as u8));
    }
    panics(34) fn b_expand_rank_panics() { tensor::<R2>(&[2, 2], 0).expand(from_elem([2], 0u8)); }
    panics(34) fn b_expand_rank2_panics() { tensor::<R1>(&[2], 0).expand(from_elem([2, 1], 0u8)); }
    panics(34) fn b_expand_inner_panics() { tensor::<R2>(&[2, 2], 0).expand(from_elem([2, 3], 0u8)); }
    // Extend and collect.
    holds(14) fn b_extend() {
        let x = nd::u8();
        let mut t = tensor::<R1>(&[2], x);
        t.extend([7u8, 8]);
        t.extend(&[9u8]);
        has(&t, &[5], |i| [x, x.wrapping_add(1), 7, 8, 9][i]);
    }
    holds(14) fn b_collect() {
        let x = nd::u8();
        let t: Tensor<u8, R1> = [x, 1, 2].into_iter().collect();
        has(&t, &[3], |i| [x, 1, 2][i]);
    }
    // Drain, with every number of elements consumed.
    holds(14) fn b_drain_r1_k0() { drained::<R1, 1>([5], 1, 3, 0) }
    holds(14) fn b_drain_r1_k1() { drained::<R1, 1>([5], 1, 3, 1) }
    holds(14) fn b_drain_r1_k2() { drained::<R1, 1>([5], 1, 3, 2) }
    holds(14) fn b_drain_r1_head() { drained::<R1, 1>([4], 0, 2, 1) }
    holds(14) fn b_drain_r1_tail() { drained::<R1, 1>([4], 2, 4, 1) }
    holds(14) fn b_drain_r1_long_tail() { drained::<R1, 1>([5], 0, 1, 1) }
    holds(14) fn b_drain_r1_all() { drained::<R1, 1>([3], 0, 3, 3) }
    holds(14) fn b_drain_r1_none() { drained::<R1, 1>([3], 1, 1, 0) }
    holds(14) fn b_drain_r1_none_end() { drained::<R1, 1>([3], 3, 3, 0) }
    holds(14) fn b_drain_r2_k0() { drained::<R2, 2>([3, 2], 1, 2, 0) }
    holds(14) fn b_drain_r2_k1() { drained::<R2, 2>([3, 2], 1, 2, 1) }
    holds(14) fn b_drain_r2_k2() { drained::<R2, 2>([3, 2], 1, 2, 2) }
    holds(14) fn b_drain_r2_head() { drained::<R2, 2>([4, 2], 0, 1, 1) }
    holds(14) fn b_drain_r2_tail() { drained::<R2, 2>([3, 2], 2, 3, 1) }
    holds(14) fn b_drain_r3() { drained::<R3, 3>([3, 2, 1], 1, 2, 1) }
    holds(14) fn b_drain_r3_head() { drained::<R3, 3>([3, 1, 2], 0, 2, 3) }
    holds(14) fn b_drain_dyn() { drained::<DynRank, 2>([3, 2], 0, 2, 3) }
    holds(14) fn b_drain_const() { drained::<(Dyn, Const<2>), 2>([3, 2], 0, 1, 0) }
    holds(14) fn b_drain_fold_r1() { drained_fold::<R1, 1>([5], 1, 4) }
    holds(14) fn b_drain_fold_r2() { drained_fold::<R2, 2>([4, 2], 1, 3) }
    holds(14) fn b_drain_fold_r2_head() { drained_fold::<R2, 2>([3, 2], 0, 1) }
    holds(14) fn b_drain_fold_r3() { drained_fold::<R3, 3>([3, 1, 2], 0, 2) }
    holds(14) fn b_drain_fold_dyn() { drained_fold::<DynRank, 1>([4], 1, 2) }
    holds(14) fn b_drain_empty_rows() {
        let mut t = tensor::<R2>(&[3, 0], 0);
        drop(t.drain(1..2));
        has(&t, &[2, 0], |_| 0);
    }
    holds(14) fn b_range_full() { range_kind(0, 0, 4) }
    holds(14) fn b_range_from() { range_kind(1, 1, 4) }
    holds(14) fn b_range_to() { range_kind(2, 0, 3) }
    holds(14) fn b_range_incl() { range_kind(3, 1, 3) }
    holds(14) fn b_range_to_incl() { range_kind(4, 0, 2) }
    holds(14) fn b_range_excluded() { range_kind(5, 1, 3) }
    holds(14) fn b_range_excluded_open() { range_kind(6, 2, 4) }
    panics(14) fn b_drain_end_panics() {
        let e = nd::usize();
        nd::assume(e > 3);
        drop(tensor::<R2>(&[3, 1], 0).drain(..e));
    }
    panics(14) fn b_drain_order_panics() {
        let (s, e) = (nd::usize(), nd::upto(3));
        nd::assume(s > e);
        drop(tensor::<R2>(&[3, 1], 0).drain(s..e));
    }
    panics(14) fn b_drain_incl_panics() {
        let e = nd::usize();
        nd::assume(e >= 3);
        drop(tensor::<R1>(&[3], 0).drain(0..=e));
    }
    panics(14) fn b_drain_r0_panics() { drop(tensor::<R0>(&[], 0).drain(..)); }
    panics(14) fn b_drain_const_panics() { drop(tensor::<(Const<2>,)>(&[2], 0).drain(..)); }
    // Following operations.
    holds(34) fn b_drain_then() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[3, 2], x);
        let mut it = t.drain(..1).into_iter();
        let _ = it.next();
        drop(it);
        t.expand(from_elem([1, 2], 9u8));
        has(&t, &[3, 2], |i| if i < 4 { x.wrapping_add(i as u8 + 2) } else { 9 });
        drop(t.drain(1..2));
        has(&t, &[2, 2], |i| if i < 2 { x.wrapping_add(i as u8 + 2) } else { 9 });
        t.resize(&[2, 1], 0);
        has(&t, &[2, 1], |i| [x.wrapping_add(2), 9][i]);
    }
    holds(34) fn b_drain_into_other() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[3, 2], x);
        let mut u = tensor::<R2>(&[1, 2], 0);
        u.expand(t.drain(1..));
        has(&u, &[3, 2], |i| if i < 2 { i as u8 } else { x.wrapping_add(i as u8) });
        has(&t, &[1, 2], |i| x.wrapping_add(i as u8));
    }
    holds(14) fn b_drain_forget() {
        let x = nd::u8();
        let mut t = tensor::<R2>(&[3, 2], x);
        core::mem::forget(t.drain(1..2));
        has(&t, &[1, 2], |i| x.wrapping_add(i as u8));
    }
}
