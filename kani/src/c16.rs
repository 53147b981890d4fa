//! C16: shapes.
use crate::model::*;
use crate::nd;
use mdarray::index::*;
use mdarray::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Collects what is hashed.
#[derive(Default)]
struct Sum(u64, u64);

impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0 ^ self.1
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64);
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(7) ^ x;
        self.1 += 1;
    }
}

fn has_dims<S: Shape>(s: &S, d: &[usize]) {
    assert!(s.rank() == d.len());
    for i in 0..d.len() {
        assert!(s.dim(i) == d[i]);
    }
    s.with_dims(|x| {
        assert!(x.len() == d.len());
        for i in 0..d.len() {
            assert!(x[i] == d[i]);
        }
    });
}

/// Construction, cloning, comparison and hashing of shapes with the dimensions given by `f`.
fn contract<S: Shape, const N: usize>(f: impl Fn() -> [usize; N]) {
    let (d, e) = (f(), f());
    let (s, t) = (S::from_dims(&d), S::from_dims(&e));
    has_dims(&s, &d);
    has_dims(&s.clone(), &d);
    let mut c = s.clone();
    c.clone_from(&t);
    has_dims(&c, &e);
    let mut same = true;
    let mut order = Ordering::Equal;
    for i in 0..N {
        same &= d[i] == e[i];
        if order == Ordering::Equal {
            order = d[i].cmp(&e[i]);
        }
    }
    assert!((s == t) == same && s.cmp(&t) == order && s.partial_cmp(&t) == Some(order));
    let (mut g, mut h) = (Sum::default(), Sum::default());
    s.hash(&mut g);
    t.hash(&mut h);
    assert!(!same || g.0 == h.0 && g.1 == h.1);
    if let Some(r) = S::RANK {
        assert!(r == N);
    }
}

/// Writing all dimensions through `with_mut_dims`, from a new shape.
fn set_dims<S: Shape, const N: usize>(d: [usize; N]) {
    let mut s = S::new(N);
    assert!(s.rank() == N);
    s.with_mut_dims(|x| {
        assert!(x.len() == N);
        for i in 0..N {
            x[i] = d[i];
        }
    });
    has_dims(&s, &d);
}

/// Prepending, removing, resizing and reversing.
fn algebra<S: Shape, P: Shape, const N: usize, const M: usize>(d: [usize; N]) {
    let s = S::from_dims(&d);
    let n = nd::usize();
    let p: P = s.prepend_dim(n);
    assert!(p.rank() == N + 1 && p.dim(0) == n);
    for i in 0..N {
        assert!(p.dim(i + 1) == d[i]);
    }
    let r: S::Reverse = s.reverse();
    assert!(r.rank() == N);
    for i in 0..N {
        assert!(r.dim(i) == d[N - 1 - i]);
    }
}

fn remove<S: Shape, R: Shape, const N: usize, const M: usize>(d: [usize; N], x: usize) {
    let s = S::from_dims(&d);
    has_dims(&s.remove_dim::<R>(x), &without::<_, N, M>(&d, x));
}

fn resize<S: Shape, R: Shape, const N: usize>(d: [usize; N], x: usize) {
    let s = S::from_dims(&d);
    let n = nd::usize();
    let mut e = d;
    e[x] = n;
    has_dims(&s.resize_dim::<R>(x, n), &e);
}

/// The length is the product of the sizes.
fn length<S: Shape, const N: usize>(max: usize) {
    let d = nd::upto_n::<N>(max);
    let s = S::from_dims(&d);
    let n = len(&d);
    assert!(s.len() == n && s.is_empty() == (n == 0) && s.checked_len() == Some(n));
    let m = DenseMapping::new(s);
    assert!(m.len() == n && m.is_empty() == (n == 0));
    let v = dense::<S>(huge(), &d);
    assert!(v.len() == n && v.is_empty() == (n == 0) && v.rank() == N);
    for i in 0..N {
        assert!(v.dim(i) == d[i] && v.shape().dim(i) == d[i]);
    }
}

/// A length that does not fit in usize is detected.
fn overflow<S: Shape, const N: usize>(d: [usize; N]) {
    assert!(S::from_dims(&d).checked_len().is_none());
}

proofs! {
    holds(9) fn p_contract_r0() { contract::<R0, 0>(|| []) }
    holds(9) fn p_contract_r1() { contract::<R1, 1>(nd::usizes) }
    holds(9) fn p_contract_r2() { contract::<R2, 2>(nd::usizes) }
    holds(9) fn p_contract_r3() { contract::<R3, 3>(nd::usizes) }
    holds(9) fn p_contract_r4() { contract::<R4, 4>(nd::usizes) }
    holds(9) fn p_contract_r5() { contract::<R5, 5>(nd::usizes) }
    holds(9) fn p_contract_r6() { contract::<R6, 6>(nd::usizes) }
    holds(9) fn b_contract_dyn0() { contract::<DynRank, 0>(nd::usizes) }
    holds(9) fn b_contract_dyn1() { contract::<DynRank, 1>(nd::usizes) }
    holds(34) fn b_contract_dyn2() { contract::<DynRank, 2>(nd::usizes) }
    holds(34) fn b_contract_dyn3() { contract::<DynRank, 3>(nd::usizes) }
    holds(9) fn p_contract_const() { contract::<(Const<3>, Const<0>), 2>(|| [3, 0]) }
    holds(9) fn p_contract_mixed() { contract::<(Const<3>, Dyn, Const<2>), 3>(|| [3, nd::usize(), 2]) }
    holds(9) fn p_contract_mixed6() { contract::<(Dyn, Const<3>, Dyn, Const<2>, Const<1>, Dyn), 6>(|| [nd::usize(), 3, nd::usize(), 2, 1, nd::usize()]) }
    holds(9) fn p_set_r1() { set_dims::<R1, 1>(nd::usizes()) }
    holds(9) fn p_set_r3() { set_dims::<R3, 3>(nd::usizes()) }
    holds(9) fn p_set_r6() { set_dims::<R6, 6>(nd::usizes()) }
    holds(9) fn p_set_mixed() { set_dims::<(Const<3>, Dyn), 2>([3, nd::usize()]) }
    holds(9) fn b_set_dyn1() { set_dims::<DynRank, 1>(nd::usizes()) }
    holds(9) fn b_set_dyn3() { set_dims::<DynRank, 3>(nd::usizes()) }
    // Two representations of dynamic rank 1.
    holds(9) fn b_dyn_one() {
        let (a, b) = (nd::usize(), nd::usize());
        let (s, t) = (DynRank::Dyn(Box::new([a])), DynRank::One(b));
        has_dims(&s, &[a]);
        has_dims(&t, &[b]);
        has_dims(&s.clone(), &[a]);
        assert!(s.dims().len() == 1 && s.dims()[0] == a && t.dims().len() == 1 && t.dims()[0] == b);
        assert!((s == t) == (a == b) && (t == s) == (a == b) && s.cmp(&t) == a.cmp(&b) && t.cmp(&s) == b.cmp(&a));
        let (mut g, mut h) = (Sum::default(), Sum::default());
        s.hash(&mut g);
        t.hash(&mut h);
        assert!(a != b || g.0 == h.0 && g.1 == h.1);
        let mut c = t.clone();
        c.clone_from(&s);
        has_dims(&c, &[a]);
        let mut c = s.clone();
        c.clone_from(&t);
        has_dims(&c, &[b]);
    }
    holds(9) fn b_dyn_ranks() {
        let (a, b, c) = (nd::usize(), nd::usize(), nd::usize());
        let (s, t) = (DynRank::from_dims(&[a]), DynRank::from_dims(&[b, c]));
        assert!(s != t && t != s);
        let mut u = s.clone();
        u.clone_from(&t);
        has_dims(&u, &[b, c]);
        let mut u = t.clone();
        u.clone_from(&s);
        has_dims(&u, &[a]);
        let mut u = DynRank::from_dims(&[a, b, c]);
        u.clone_from(&t);
        has_dims(&u, &[b, c]);
    }
    holds(9) fn p_default() {
        has_dims(&R0::default(), &[]);
        has_dims(&R2::default(), &[0, 0]);
        has_dims(&<(Const<3>, Dyn)>::default(), &[3, 0]);
        has_dims(&DynRank::default(), &[0]);
    }
    // Algebra.
    holds(9) fn p_algebra_r0() { algebra::<R0, R1, 0, 0>([]) }
    holds(9) fn p_algebra_r1() { algebra::<R1, R2, 1, 0>(nd::usizes()) }
    holds(9) fn p_algebra_r2() { algebra::<R2, R3, 2, 1>(nd::usizes()) }
    holds(9) fn p_algebra_r3() { algebra::<R3, R4, 3, 2>(nd::usizes()) }
    holds(9) fn p_algebra_r4() { algebra::<R4, R5, 4, 3>(nd::usizes()) }
    holds(9) fn p_algebra_r5() { algebra::<R5, R6, 5, 4>(nd::usizes()) }
    holds(9) fn b_algebra_dyn0() { algebra::<DynRank, DynRank, 0, 0>([]) }
    holds(9) fn b_algebra_dyn1() { algebra::<DynRank, DynRank, 1, 0>(nd::usizes()) }
    holds(9) fn b_algebra_dyn3() { algebra::<DynRank, DynRank, 3, 2>(nd::usizes()) }
    holds(9) fn p_algebra_mixed() { algebra::<(Const<3>, Dyn), (Dyn, Const<3>, Dyn), 2, 1>([3, nd::usize()]) }
    holds(9) fn p_reverse_r6() {
        let d = nd::usizes::<6>();
        has_dims(&R6::from_dims(&d).reverse(), &[d[5], d[4], d[3], d[2], d[1], d[0]]);
    }
    holds(9) fn p_remove_r1() { remove::<R1, R0, 1, 0>(nd::usizes(), 0) }
    holds(9) fn p_remove_r2_0() { remove::<R2, R1, 2, 1>(nd::usizes(), 0) }
    holds(9) fn p_remove_r2_1() { remove::<R2, R1, 2, 1>(nd::usizes(), 1) }
    holds(9) fn p_remove_r3_1() { remove::<R3, R2, 3, 2>(nd::usizes(), 1) }
    holds(9) fn p_remove_r6_2() { remove::<R6, R5, 6, 5>(nd::usizes(), 2) }
    holds(9) fn p_remove_r6_5() { remove::<R6, R5, 6, 5>(nd::usizes(), 5) }
    holds(9) fn b_remove_dyn_0() { remove::<DynRank, DynRank, 2, 1>(nd::usizes(), 0) }
    holds(9) fn b_remove_dyn_1() { remove::<DynRank, DynRank, 2, 1>(nd::usizes(), 1) }
    holds(9) fn b_remove_dyn1() { remove::<DynRank, DynRank, 1, 0>(nd::usizes(), 0) }
    holds(9) fn p_remove_mixed() { remove::<(Const<3>, Dyn, Const<2>), (Const<3>, Const<2>), 3, 2>([3, nd::usize(), 2], 1) }
    holds(9) fn p_resize_r1() { resize::<R1, R1, 1>(nd::usizes(), 0) }
    holds(9) fn p_resize_r3_1() { resize::<R3, R3, 3>(nd::usizes(), 1) }
    holds(9) fn p_resize_r6_5() { resize::<R6, R6, 6>(nd::usizes(), 5) }
    holds(9) fn b_resize_dyn() { resize::<DynRank, DynRank, 3>(nd::usizes(), 2) }
    holds(9) fn p_resize_mixed() { resize::<(Const<3>, Dyn), R2, 2>([3, nd::usize()], 0) }
    // Length.
    holds(9) fn b_length_r0() { length::<R0, 0>(0) }
    holds(9) fn p_length_r1() { length::<R1, 1>(usize::MAX) }
    holds(9) fn b_length_r2() { length::<R2, 2>(1 << 10) }
    holds(9) fn b_length_r3() { length::<R3, 3>(1 << 5) }
    holds(9) fn b_length_r6() { length::<R6, 6>(2) }
    holds(9) fn b_length_dyn0() { length::<DynRank, 0>(0) }
    holds(9) fn b_length_dyn1() { length::<DynRank, 1>(usize::MAX) }
    holds(9) fn b_length_dyn() { length::<DynRank, 3>(1 << 4) }
    holds(9) fn p_length_const() {
        let n = nd::upto(1 << 20);
        let s = <(Const<3>, Dyn, Const<2>)>::from_dims(&[3, n, 2]);
        assert!(s.len() == 3 * n * 2 && s.checked_len() == Some(3 * n * 2));
    }
    holds(9) fn b_overflow_r2() { let x = nd::usize(); nd::assume(x >= 1 << 32); overflow::<R2, 2>([1 << 32, x]) }
    holds(9) fn b_overflow_r2b() { let x = nd::usize(); nd::assume(x > usize::MAX / 3); overflow::<R2, 2>([x, 3]) }
    holds(9) fn b_overflow_r3() { let x = nd::usize(); nd::assume(x >= 1 << 24); overflow::<R3, 3>([1 << 20, 1 << 20, x]) }
    holds(9) fn b_overflow_dyn() { let x = nd::usize(); nd::assume(x >= 1 << 32); overflow::<DynRank, 2>([1 << 32, x]) }
    holds(9) fn b_overflow_const() { let x = nd::usize(); nd::assume(x > usize::MAX / 4); overflow::<(Const<4>, Dyn), 2>([4, x]) }
    // Conversion into a shape.
    holds(9) fn p_into_arrays() {
        let d = nd::usizes::<6>();
        has_dims(&[].into_shape(), &[]);
        has_dims(&[d[0]].into_shape(), &[d[0]]);
        has_dims(&[d[0], d[1]].into_shape(), &[d[0], d[1]]);
        has_dims(&[d[0], d[1], d[2]].into_shape(), &[d[0], d[1], d[2]]);
        has_dims(&[d[0], d[1], d[2], d[3]].into_shape(), &[d[0], d[1], d[2], d[3]]);
        has_dims(&[d[0], d[1], d[2], d[3], d[4]].into_shape(), &[d[0], d[1], d[2], d[3], d[4]]);
        has_dims(&d.into_shape(), &d);
        d.into_dims(|x| assert!(x.len() == 6 && x[0] == d[0] && x[5] == d[5]));
    }
    holds(9) fn b_into_dyn() {
        let d = nd::usizes::<3>();
        has_dims(&(&d).into_shape(), &d);
        has_dims(&(&d[..]).into_shape(), &d);
        has_dims(&vec![d[0], d[1], d[2]].into_shape(), &d);
        let b: Box<[usize]> = Box::new(d);
        has_dims(&b.into_shape(), &d);
        (&d).into_dims(|x| assert!(x.len() == 3 && x[0] == d[0] && x[1] == d[1] && x[2] == d[2]));
        (&d[..]).into_dims(|x| assert!(x.len() == 3 && x[0] == d[0] && x[1] == d[1] && x[2] == d[2]));
        vec![d[0], d[1]].into_dims(|x| assert!(x.len() == 2 && x[0] == d[0] && x[1] == d[1]));
    }
    holds(9) fn p_into_dims() {
        let n = nd::usize();
        has_dims(&n.into_shape(), &[n]);
        has_dims(&Const::<4>.into_shape(), &[4]);
        has_dims(&(n, Const::<4>).into_shape(), &[n, 4]);
        n.into_dims(|x| assert!(x.len() == 1 && x[0] == n));
        Const::<4>.into_dims(|x| assert!(x.len() == 1 && x[0] == 4));
        (n, Const::<4>).into_dims(|x| assert!(x.len() == 2 && x[0] == n && x[1] == 4));
    }
    holds(9) fn p_dim() {
        let n = nd::usize();
        assert!(<Dyn as Dim>::from_size(n) == n && Dim::size(n) == n);
        assert!(Const::<5>.size() == 5);
        let c: Result<Const<5>, usize> = n.try_into();
        assert!(match c { Ok(_) => n == 5, Err(m) => n != 5 && m == n });
        assert!(Dyn::from(Const::<7>) == 7);
    }
    // Invalid dimensions.
    panics(9) fn p_dim_const_panics() { let n = nd::usize(); nd::assume(n != 5); let _ = <Const<5> as Dim>::from_size(n); }
    panics(9) fn p_const_panics() {
        let d = nd::usizes::<3>();
        nd::assume(d[0] != 3 || d[2] != 2);
        let _ = <(Const<3>, Dyn, Const<2>)>::from_dims(&d);
    }
    panics(9) fn p_rank_panics() {
        let d = nd::usizes::<6>();
        let n = nd::upto(6);
        nd::assume(n != 3);
        let _ = R3::from_dims(&d[..n]);
    }
    panics(9) fn p_new_panics() { let n = nd::usize(); nd::assume(n != 2); let _ = R2::new(n); }
    panics(9) fn p_rank0_panics() { let n = nd::usize(); nd::assume(n != 0); let _ = R0::new(n); }
    panics(9) fn p_dim_r3_panics() { let d = nd::usizes::<3>(); let n = nd::usize(); nd::assume(n >= 3); let _ = R3::from_dims(&d).dim(n); }
    panics(9) fn b_dim_dyn_panics() { let d = nd::usizes::<2>(); let n = nd::usize(); nd::assume(n >= 2); let _ = DynRank::from_dims(&d).dim(n); }
    panics(9) fn p_remove_panics() { let n = nd::usize(); nd::assume(n >= 2); let _: R1 = R2::from_dims(&nd::usizes::<2>()).remove_dim(n); }
    panics(9) fn p_resize_panics() { let n = nd::usize(); nd::assume(n >= 2); let _: R2 = R2::from_dims(&nd::usizes::<2>()).resize_dim(n, 1); }
}
