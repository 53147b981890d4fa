//! C14: equality, hashing and search.
use crate::model::*;
use crate::nd;
use mdarray::*;
use std::hash::{Hash, Hasher};

const LEN: usize = 24;

/// Symbolic storage.
fn any_buf<const K: usize>() -> [u8; LEN] {
    let mut b = [0; LEN];
    for i in 0..K {
        b[i] = nd::u8();
    }
    b
}

/// Equality of views with the given sizes and strides over `K` symbolic elements each.
fn same<S: Shape, L: Layout, R: Shape, M: Layout, const N: usize>(
    v: &Slice<u8, S, L>, w: &Slice<u8, R, M>, d: [usize; N], s: [isize; N], e: [usize; N], t: [isize; N], flip: bool,
) {
    let mut want = true;
    for i in 0..N {
        want &= d[i] == e[i];
    }
    if want {
        for n in 0..len(&d) {
            let i = unlinear(&d, n);
            want &= unsafe { *v.as_ptr().offset(addr(&s, &i)) == *w.as_ptr().offset(addr(&t, &i)) };
        }
    }
    if L::IS_DENSE && M::IS_DENSE {
        assert!(v.eq(w) == want && w.eq(v) == want && v.ne(w) == !want);
    } else if !flip {
        assert!(v.eq(w) == want);
    } else {
        assert!(w.eq(v) == want);
    }
}

fn dense_dense<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N], e: [usize; N]) {
    let (a, b) = (any_buf::<K>(), any_buf::<K>());
    let (v, w) = (dense::<S>(a.as_ptr(), &d), dense::<R>(b.as_ptr(), &e));
    same(&*v, &*w, d, row_major(&d), e, row_major(&e), false);
}

fn strided_dense<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N], at: usize, s: [isize; N], e: [usize; N], flip: bool) {
    let (a, b) = (any_buf::<K>(), any_buf::<K>());
    let (v, w) = (strided::<S>(a[at..].as_ptr(), &d, &s), dense::<R>(b.as_ptr(), &e));
    same(&*v, &*w, d, s, e, row_major(&e), flip);
}

fn strided_strided<S: Shape, R: Shape, const N: usize, const K: usize>(d: [usize; N], at: usize, s: [isize; N], e: [usize; N], bt: usize, t: [isize; N]) {
    let (a, b) = (any_buf::<K>(), any_buf::<K>());
    let (v, w) = (strided::<S>(a[at..].as_ptr(), &d, &s), strided::<R>(b[bt..].as_ptr(), &e, &t));
    same(&*v, &*w, d, s, e, t, false);
}

/// Arrays of different rank are never equal, whatever their length and elements.
fn ranks<S: Shape, R: Shape, const N: usize, const M: usize>(d: [usize; N], e: [usize; M]) {
    let a = any_buf::<6>();
    let (v, w) = (dense::<S>(a.as_ptr(), &d), dense::<R>(a.as_ptr(), &e));
    assert!(!v.eq(&*w) && !w.eq(&*v));
    let (x, y) = (v.remap::<S, Strided>(), w.remap::<R, Strided>());
    assert!(!x.eq(&*w) && !y.eq(&*v) && !x.eq(&*y));
}

/// A value that is not equal to itself, as NaN.
#[derive(Clone, Copy)]
struct F(u8);

impl PartialEq for F {
    fn eq(&self, other: &F) -> bool {
        self.0 == other.0 && self.0 != 7
    }
}

/// Comparison of an array with itself compares the elements.
fn itself(strided: bool) {
    let a = [F(nd::u8()), F(nd::u8()), F(nd::u8()), F(nd::u8())];
    let want = a[0].0 != 7 && a[1].0 != 7 && a[2].0 != 7 && a[3].0 != 7;
    let v = unsafe { View::<F, R2>::new_unchecked(a.as_ptr(), DenseMapping::new((2, 2))) };
    if strided {
        let w = v.remap::<R2, Strided>();
        assert!((w == w) == want);
    } else {
        assert!((v == v) == want && (*v == *v) == want);
        let i = nd::usize();
        nd::assume(i < 4);
        assert!(v.contains(&a[i]) == (a[i].0 != 7));
    }
}

/// A pair of types with a comparison of their own.
#[derive(Clone, Copy)]
struct A(u8);
#[derive(Clone, Copy)]
struct B(u8);

impl PartialEq<B> for A {
    fn eq(&self, other: &B) -> bool {
        self.0 < other.0
    }
}

fn mixed_types() {
    let a = [A(nd::u8()), A(nd::u8()), A(nd::u8())];
    let b = [B(nd::u8()), B(nd::u8()), B(nd::u8())];
    let want = a[0].0 < b[0].0 && a[1].0 < b[1].0 && a[2].0 < b[2].0;
    let v = View::<A, R1>::from(&a);
    let w = View::<B, R1>::from(&b);
    assert!((v == w) == want);
    assert!((v.remap::<R1, Strided>() == w) == want);
    assert!((Array::from(a) == Array::from(b)) == want);
}

/// A hasher that records the calls.
#[derive(PartialEq, Clone, Copy)]
struct Rec {
    calls: [(u8, u64); LEN],
    n: usize,
}

impl Rec {
    fn new() -> Rec {
        Rec { calls: [(0, 0); LEN], n: 0 }
    }
    fn push(&mut self, kind: u8, x: u64) {
        self.calls[self.n] = (kind, x);
        self.n += 1;
    }
}

impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.push(1, bytes.len() as u64);
        for i in 0..bytes.len() {
            self.push(2, bytes[i] as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.push(3, x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.push(4, x as u64)
    }
}

fn rec<T: Hash + ?Sized>(x: &T) -> Rec {
    let mut r = Rec::new();
    x.hash(&mut r);
    r
}

fn alike(a: Rec, b: Rec) {
    assert!(a.n == b.n);
    for i in 0..LEN {
        assert!(a.calls[i].0 == b.calls[i].0 && a.calls[i].1 == b.calls[i].1);
    }
}

/// Storage in which the strided view has the same elements as the dense one.
fn spread<const N: usize, const K: usize>(d: [usize; N], at: usize, s: [isize; N]) -> ([u8; LEN], [u8; LEN]) {
    let a = any_buf::<K>();
    let mut b = [0; LEN];
    for n in 0..len(&d) {
        b[(at as isize + addr(&s, &unlinear(&d, n))) as usize] = a[n];
    }
    (a, b)
}

/// Hashes of equal arrays in different layouts and rank representations.
fn hashes<S: Shape, const N: usize, const K: usize>(d: [usize; N], at: usize, s: [isize; N]) {
    let (a, b) = spread::<N, K>(d, at, s);
    let v = dense::<S>(a.as_ptr(), &d);
    let w = strided::<S>(b[at..].as_ptr(), &d, &s);
    let h = rec(&v);
    alike(h, rec(&*v));
    alike(h, rec(&w));
    alike(h, rec(&*w));
}

fn hashes_dyn<S: Shape, const N: usize, const K: usize>(d: [usize; N], at: usize, s: [isize; N]) {
    let (a, b) = spread::<N, K>(d, at, s);
    let h = rec(&dense::<S>(a.as_ptr(), &d));
    alike(h, rec(&dense::<DynRank>(a.as_ptr(), &d)));
    alike(h, rec(&strided::<DynRank>(b[at..].as_ptr(), &d, &s)));
}

fn found<S: Shape, L: Layout, const N: usize>(v: &Slice<u8, S, L>, d: [usize; N], s: [isize; N]) {
    let x = nd::u8();
    let mut want = false;
    for n in 0..len(&d) {
        want |= unsafe { *v.as_ptr().offset(addr(&s, &unlinear(&d, n))) == x };
    }
    assert!(v.contains(&x) == want);
}

fn contains_dense<S: Shape, const N: usize, const K: usize>(d: [usize; N]) {
    let a = any_buf::<K>();
    found(&*dense::<S>(a.as_ptr(), &d), d, row_major(&d));
}

fn contains_strided<S: Shape, const N: usize, const K: usize>(d: [usize; N], at: usize, s: [isize; N]) {
    let a = any_buf::<K>();
    found(&*strided::<S>(a[at..].as_ptr(), &d, &s), d, s);
}

type C2 = (Const<2>,);
type C22 = (Const<2>, Const<2>);

crate::proofs! {
    // Dense arrays.
    holds(34) fn b_dd_r0() { dense_dense::<R0, R0, 0, 1>([], []) }
    holds(34) fn b_dd_r1() { dense_dense::<R1, R1, 1, 4>([4], [4]) }
    holds(34) fn b_dd_r1_size() { dense_dense::<R1, R1, 1, 4>([3], [4]) }
    holds(34) fn b_dd_r1_empty() { dense_dense::<R1, R1, 1, 4>([0], [0]) }
    holds(34) fn b_dd_r2() { dense_dense::<R2, R2, 2, 6>([2, 3], [2, 3]) }
    holds(34) fn b_dd_r2_swapped() { dense_dense::<R2, R2, 2, 6>([2, 3], [3, 2]) }
    holds(34) fn b_dd_r2_outer() { dense_dense::<R2, R2, 2, 6>([2, 3], [1, 3]) }
    holds(34) fn b_dd_r2_inner() { dense_dense::<R2, R2, 2, 6>([2, 3], [2, 2]) }
    holds(34) fn b_dd_r2_empty() { dense_dense::<R2, R2, 2, 6>([2, 0], [2, 0]) }
    holds(34) fn b_dd_r2_empties() { dense_dense::<R2, R2, 2, 6>([2, 0], [3, 0]) }
    holds(34) fn b_dd_r2_empties2() { dense_dense::<R2, R2, 2, 6>([2, 0], [0, 2]) }
    holds(34) fn b_dd_r3() { dense_dense::<R3, R3, 3, 8>([2, 2, 2], [2, 2, 2]) }
    holds(34) fn b_dd_r3_size() { dense_dense::<R3, R3, 3, 8>([1, 2, 2], [2, 2, 1]) }
    holds(34) fn b_dd_dyn() { dense_dense::<DynRank, DynRank, 2, 6>([2, 3], [2, 3]) }
    holds(34) fn b_dd_dyn_r2() { dense_dense::<DynRank, R2, 2, 6>([2, 3], [2, 3]) }
    holds(34) fn b_dd_dyn_size() { dense_dense::<DynRank, R2, 2, 6>([2, 3], [3, 2]) }
    holds(34) fn b_dd_const() { dense_dense::<C22, R2, 2, 4>([2, 2], [2, 2]) }
    holds(34) fn b_dd_const_size() { dense_dense::<C22, R2, 2, 4>([2, 2], [1, 2]) }
    holds(34) fn b_dd_mixed() { dense_dense::<(Const<2>, Dyn), (Dyn, Const<2>), 2, 4>([2, 2], [2, 2]) }
    holds(34) fn b_dd_sizes() {
        let (d, e) = (nd::upto_n::<2>(3), nd::upto_n::<2>(3));
        let a = any_buf::<9>();
        let want = d[0] == e[0] && d[1] == e[1];
        assert!((dense::<R2>(a.as_ptr(), &d) == dense::<R2>(a.as_ptr(), &e)) == want);
    }
    holds(34) fn b_dd_sizes_dyn() {
        let (d, e) = (nd::upto_n::<2>(2), nd::upto_n::<2>(2));
        let a = any_buf::<4>();
        let want = d[0] == e[0] && d[1] == e[1];
        assert!((dense::<R2>(a.as_ptr(), &d) == dense::<DynRank>(a.as_ptr(), &e)) == want);
    }

    // Strided against dense.
    holds(34) fn b_sd_r1() { strided_dense::<R1, R1, 1, 7>([3], 0, [2], [3], false) }
    holds(34) fn b_ds_r1() { strided_dense::<R1, R1, 1, 7>([3], 0, [2], [3], true) }
    holds(34) fn b_sd_r1_rev() { strided_dense::<R1, R1, 1, 4>([4], 3, [-1], [4], false) }
    holds(34) fn b_ds_r1_rev() { strided_dense::<R1, R1, 1, 4>([4], 3, [-1], [4], true) }
    holds(34) fn b_sd_r1_zero() { strided_dense::<R1, R1, 1, 4>([3], 1, [0], [3], false) }
    holds(34) fn b_sd_r1_size() { strided_dense::<R1, R1, 1, 4>([2], 0, [1], [3], false) }
    holds(34) fn b_ds_r1_size() { strided_dense::<R1, R1, 1, 4>([2], 0, [1], [3], true) }
    holds(34) fn b_sd_r1_empty() { strided_dense::<R1, R1, 1, 4>([0], 0, [2], [0], false) }
    holds(34) fn b_ds_r1_empty() { strided_dense::<R1, R1, 1, 4>([0], 0, [2], [0], true) }
    holds(34) fn b_sd_r2() { strided_dense::<R2, R2, 2, 6>([2, 3], 0, [1, 2], [2, 3], false) }
    holds(34) fn b_ds_r2() { strided_dense::<R2, R2, 2, 6>([2, 3], 0, [1, 2], [2, 3], true) }
    holds(34) fn b_sd_r2_rev() { strided_dense::<R2, R2, 2, 6>([2, 2], 3, [-2, -1], [2, 2], false) }
    holds(34) fn b_sd_r2_gap() { strided_dense::<R2, R2, 2, 6>([2, 2], 0, [3, 1], [2, 2], false) }
    holds(34) fn b_ds_r2_gap() { strided_dense::<R2, R2, 2, 6>([2, 2], 0, [3, 1], [2, 2], true) }
    holds(34) fn b_sd_r2_size() { strided_dense::<R2, R2, 2, 6>([2, 3], 0, [1, 2], [3, 2], false) }
    holds(34) fn b_ds_r2_size() { strided_dense::<R2, R2, 2, 6>([2, 3], 0, [1, 2], [3, 2], true) }
    holds(34) fn b_sd_r2_empty() { strided_dense::<R2, R2, 2, 6>([0, 3], 0, [1, 2], [0, 3], false) }
    holds(34) fn b_ds_r2_empty() { strided_dense::<R2, R2, 2, 6>([0, 3], 0, [1, 2], [0, 3], true) }
    holds(34) fn b_sd_r2_empties() { strided_dense::<R2, R2, 2, 6>([0, 3], 0, [1, 2], [0, 2], false) }
    holds(34) fn b_sd_r2_hollow() { strided_dense::<R2, R2, 2, 6>([2, 0], 0, [1, 2], [2, 0], false) }
    holds(34) fn b_ds_r2_hollow() { strided_dense::<R2, R2, 2, 6>([2, 0], 0, [1, 2], [2, 0], true) }
    holds(34) fn b_sd_r3() { strided_dense::<R3, R3, 3, 8>([2, 1, 2], 0, [1, 1, 2], [2, 1, 2], false) }
    holds(34) fn b_sd_dyn() { strided_dense::<DynRank, R2, 2, 6>([2, 2], 0, [1, 2], [2, 2], false) }
    holds(34) fn b_ds_dyn() { strided_dense::<DynRank, R2, 2, 6>([2, 2], 0, [1, 2], [2, 2], true) }
    holds(34) fn b_sd_dyn_dyn() { strided_dense::<DynRank, DynRank, 2, 6>([2, 2], 0, [1, 2], [2, 2], false) }
    holds(34) fn b_sd_const() { strided_dense::<C22, R2, 2, 6>([2, 2], 0, [1, 2], [2, 2], false) }
    holds(34) fn b_ds_const() { strided_dense::<C22, R2, 2, 6>([2, 2], 0, [1, 2], [2, 2], true) }
    holds(34) fn b_sd_r0() { strided_dense::<R0, R0, 0, 1>([], 0, [], [], false) }
    holds(34) fn b_ds_r0() { strided_dense::<R0, R0, 0, 1>([], 0, [], [], true) }

    // Strided against strided.
    holds(34) fn b_ss_r1() { strided_strided::<R1, R1, 1, 5>([3], 0, [2], [3], 2, [-1]) }
    holds(34) fn b_ss_r2() { strided_strided::<R2, R2, 2, 6>([2, 2], 0, [1, 2], [2, 2], 0, [3, 1]) }
    holds(34) fn b_ss_r2_size() { strided_strided::<R2, R2, 2, 6>([2, 2], 0, [1, 2], [2, 1], 0, [3, 1]) }
    holds(34) fn b_ss_dyn() { strided_strided::<DynRank, R2, 2, 6>([2, 2], 0, [1, 2], [2, 2], 3, [-2, -1]) }

    // Different ranks.
    holds(34) fn b_rank_1_2() { ranks::<R1, R2, 1, 2>([2], [1, 2]) }
    holds(34) fn b_rank_2_3() { ranks::<R2, R3, 2, 3>([2, 2], [2, 2, 1]) }
    holds(34) fn b_rank_dyn() { ranks::<DynRank, DynRank, 1, 2>([4], [2, 2]) }
    holds(34) fn b_rank_dyn_r1() { ranks::<DynRank, R1, 2, 1>([2, 1], [2]) }
    holds(34) fn b_rank_dyn_r0() { ranks::<DynRank, R0, 1, 0>([1], []) }
    holds(34) fn b_rank_0_1() { ranks::<R0, R1, 0, 1>([], [1]) }

    // Element comparison.
    holds(34) fn b_itself() { itself(false) }
    holds(34) fn b_itself_strided() { itself(true) }
    holds(34) fn b_mixed_types() { mixed_types() }

    // Types.
    holds(34) fn b_types() {
        let (x, y) = ([nd::u8(), nd::u8()], [nd::u8(), nd::u8()]);
        let want = x[0] == y[0] && x[1] == y[1];
        let (a, b) = (Array::<u8, C2>::from(x), Array::<u8, C2>::from(y));
        let (v, w) = (View::<u8, R1>::from(&x), View::<u8, R1>::from(&y));
        assert!((a == b) == want && (a != b) == !want && (b == a) == want);
        assert!((a == v) == (x[0] == x[0]) && (a == w) == want && (w == a) == want && (*w == a) == want && (a == *w) == want);
        assert!((v == w) == want && (*v == w) == want && (v == *w) == want);
    }
    holds(34) fn b_types_tensor() {
        let (x, y) = ([nd::u8(), nd::u8()], [nd::u8(), nd::u8()]);
        let want = x[0] == y[0] && x[1] == y[1];
        let (t, u) = (Tensor::<u8, R1>::from(x), Tensor::<u8, R1>::from(y));
        let a = Array::<u8, C2>::from(y);
        let w = View::<u8, R1>::from(&y);
        assert!((t == u) == want && (t != u) == !want && (t == a) == want && (a == t) == want && (t == w) == want && (w == t) == want);
    }
    holds(34) fn b_types_mut() {
        let (mut x, mut y) = ([nd::u8(), nd::u8()], [nd::u8(), nd::u8()]);
        let want = x[0] == y[0] && x[1] == y[1];
        let a = Array::<u8, C2>::from(y);
        let (v, w) = (ViewMut::<u8, R1>::from(&mut x), ViewMut::<u8, R1>::from(&mut y));
        assert!((v == w) == want && (v == a) == want && (a == v) == want && (v == *w) == want && (*v == w) == want);
    }

    // Hashes.
    holds(34) fn b_hash_r0() { hashes::<R0, 0, 1>([], 0, []) }
    holds(34) fn b_hash_r1() { hashes::<R1, 1, 3>([3], 0, [2]) }
    holds(34) fn b_hash_r1_rev() { hashes::<R1, 1, 4>([4], 3, [-1]) }
    holds(34) fn b_hash_r2() { hashes::<R2, 2, 6>([2, 3], 0, [1, 2]) }
    holds(34) fn b_hash_r2_gap() { hashes::<R2, 2, 4>([2, 2], 0, [3, 1]) }
    holds(34) fn b_hash_r2_col() { hashes::<R2, 2, 3>([3, 1], 0, [2, 1]) }
    holds(34) fn b_hash_r2_empty() { hashes::<R2, 2, 1>([2, 0], 0, [1, 1]) }
    holds(34) fn b_hash_r3() { hashes::<R3, 3, 4>([2, 1, 2], 0, [1, 1, 2]) }
    holds(34) fn b_hash_const() { hashes::<C22, 2, 4>([2, 2], 0, [1, 2]) }
    holds(34) fn b_hash_dyn() { hashes_dyn::<R2, 2, 4>([2, 2], 0, [1, 2]) }
    holds(34) fn b_hash_dyn_r1() { hashes_dyn::<R1, 1, 3>([3], 0, [2]) }
    holds(34) fn b_hash_dyn_const() { hashes_dyn::<C2, 1, 2>([2], 1, [-1]) }
    holds(34) fn b_hash_types() {
        let x = [[nd::u8(), nd::u8()], [nd::u8(), nd::u8()]];
        let mut y = x;
        let h = rec(&View::<u8, R2>::from(&x));
        alike(h, rec(&Array::<u8, C22>::from(x)));
        alike(h, rec(&ViewMut::<u8, R2>::from(&mut y)));
        alike(h, rec(&Tensor::<u8, R2>::from(x)));
    }

    // Search.
    holds(34) fn b_contains_r0() { contains_dense::<R0, 0, 1>([]) }
    holds(34) fn b_contains_r1() { contains_dense::<R1, 1, 4>([4]) }
    holds(34) fn b_contains_r1_empty() { contains_dense::<R1, 1, 4>([0]) }
    holds(34) fn b_contains_r2() { contains_dense::<R2, 2, 6>([2, 3]) }
    holds(34) fn b_contains_r3() { contains_dense::<R3, 3, 8>([2, 2, 2]) }
    holds(34) fn b_contains_dyn() { contains_dense::<DynRank, 2, 4>([2, 2]) }
    holds(34) fn b_contains_const() { contains_dense::<C22, 2, 4>([2, 2]) }
    holds(34) fn b_contains_s0() { contains_strided::<R0, 0, 1>([], 0, []) }
    holds(34) fn b_contains_s1() { contains_strided::<R1, 1, 6>([3], 0, [2]) }
    holds(34) fn b_contains_s1_rev() { contains_strided::<R1, 1, 6>([3], 5, [-2]) }
    holds(34) fn b_contains_s2() { contains_strided::<R2, 2, 6>([2, 3], 0, [1, 2]) }
    holds(34) fn b_contains_s2_gap() { contains_strided::<R2, 2, 6>([2, 2], 0, [3, 1]) }
    holds(34) fn b_contains_s2_empty() { contains_strided::<R2, 2, 6>([2, 0], 0, [3, 1]) }
    holds(34) fn b_contains_s2_hollow() { contains_strided::<R2, 2, 6>([0, 2], 0, [3, 1]) }
    holds(34) fn b_contains_s3() { contains_strided::<R3, 3, 8>([2, 1, 2], 0, [1, 1, 4]) }
    holds(34) fn b_contains_sdyn() { contains_strided::<DynRank, 2, 6>([2, 2], 0, [1, 2]) }
}
