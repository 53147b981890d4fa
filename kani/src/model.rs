//! Specification helpers: address arithmetic stated independently of the implementation.
use crate::nd;
use mdarray::*;

pub type R0 = Rank<0>;
pub type R1 = Rank<1>;
pub type R2 = Rank<2>;
pub type R3 = Rank<3>;
pub type R4 = Rank<4>;
pub type R5 = Rank<5>;
pub type R6 = Rank<6>;

const fn iota() -> [u8; 128] {
    let mut b = [0; 128];
    let mut i = 0;
    while i < 128 {
        b[i] = i as u8;
        i += 1;
    }
    b
}

/// Element storage of views: element `i` has the value `i`.
pub const BUF: [u8; 128] = iota();

/// Where strided views over `BUF` start, so that strides of either sign stay inside.
pub const MID: usize = 64;

/// Position of a reference relative to the start of a view of bytes.
pub fn pos<T: ?Sized>(r: &T, base: *const u8) -> isize {
    (r as *const T as *const u8 as usize).wrapping_sub(base as usize) as isize
}

pub fn dense<'a, S: Shape>(base: *const u8, dims: &[usize]) -> View<'a, u8, S> {
    unsafe { View::new_unchecked(base, DenseMapping::new(S::from_dims(dims))) }
}

pub fn dense_mut<'a, S: Shape>(base: *mut u8, dims: &[usize]) -> ViewMut<'a, u8, S> {
    unsafe { ViewMut::new_unchecked(base, DenseMapping::new(S::from_dims(dims))) }
}

pub fn strided<'a, S: Shape>(base: *const u8, dims: &[usize], strides: &[isize]) -> View<'a, u8, S, Strided> {
    unsafe { View::new_unchecked(base, StridedMapping::new(S::from_dims(dims), strides)) }
}

pub fn strided_mut<'a, S: Shape>(base: *mut u8, dims: &[usize], strides: &[isize]) -> ViewMut<'a, u8, S, Strided> {
    unsafe { ViewMut::new_unchecked(base, StridedMapping::new(S::from_dims(dims), strides)) }
}

/// A large allocation that is never accessed, for views of large size: the middle of it.
pub fn huge() -> *mut u8 {
    unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(1 << 44, 1)).add(1 << 43) }
}

/// Address of the element with multi-index `idx`: the sum of stride times index.
pub fn addr(strides: &[isize], idx: &[usize]) -> isize {
    let mut a = 0;
    for i in 0..strides.len() {
        a += strides[i] * idx[i] as isize;
    }
    a
}

/// Row-major strides of a dense array.
pub fn row_major<const N: usize>(dims: &[usize; N]) -> [isize; N] {
    let mut s = [1isize; N];
    let mut i = N;
    while i > 1 {
        i -= 1;
        s[i - 1] = s[i] * dims[i] as isize;
    }
    s
}

pub fn len(dims: &[usize]) -> usize {
    let mut n = 1;
    for i in 0..dims.len() {
        n *= dims[i];
    }
    n
}

/// Row-major position of a multi-index.
pub fn linear(dims: &[usize], idx: &[usize]) -> usize {
    let mut n = 0;
    for i in 0..dims.len() {
        n = n * dims[i] + idx[i];
    }
    n
}

/// Inverse of `linear`.
pub fn unlinear<const N: usize>(dims: &[usize; N], mut n: usize) -> [usize; N] {
    let mut idx = [0; N];
    let mut i = N;
    while i > 0 {
        i -= 1;
        idx[i] = n % dims[i];
        n /= dims[i];
    }
    idx
}

pub fn is_perm(p: &[usize]) -> bool {
    let n = p.len();
    let mut ok = true;
    for i in 0..n {
        ok &= p[i] < n;
        for j in 0..i {
            ok &= p[i] != p[j];
        }
    }
    ok
}

pub fn shape<S: Shape>(dims: &[usize]) -> S {
    S::from_dims(dims)
}

/// The strided mapping with arbitrary sizes and strides.
pub fn any_strided<S: Shape, const N: usize>() -> ([usize; N], [isize; N], StridedMapping<S>) {
    let d = nd::usizes::<N>();
    let s = nd::isizes::<N>();
    (d, s, StridedMapping::new(shape::<S>(&d), &s))
}

/// A symbolic multi-index within `dims` (the array must not be empty).
pub fn any_index<const N: usize>(dims: &[usize; N]) -> [usize; N] {
    let mut idx = [0; N];
    for i in 0..N {
        idx[i] = nd::usize();
        nd::assume(idx[i] < dims[i]);
    }
    idx
}

/// The mapping has the given sizes, and the given strides where they matter.
pub fn is_mapping<M: Mapping>(m: &M, d: &[usize], s: &[isize]) {
    let mut empty = false;
    assert!(m.rank() == d.len());
    for i in 0..d.len() {
        assert!(m.dim(i) == d[i]);
        empty |= d[i] == 0;
    }
    for i in 0..d.len() {
        assert!(empty || d[i] == 1 || m.stride(i) == s[i]);
    }
}

/// The view starts at the given position and has the given sizes and strides.
pub fn is_view<S: Shape, L: Layout>(v: &Slice<u8, S, L>, base: *const u8, start: isize, d: &[usize], s: &[isize]) {
    is_mapping(v.mapping(), d, s);
    let mut empty = false;
    for i in 0..d.len() {
        empty |= d[i] == 0;
    }
    assert!(empty || pos(unsafe { &*v.as_ptr() }, base) == start);
}

pub fn without<T: Copy + Default, const N: usize, const K: usize>(a: &[T; N], x: usize) -> [T; K] {
    let mut r = [T::default(); K];
    let mut k = 0;
    for i in 0..N {
        if i != x {
            r[k] = a[i];
            k += 1;
        }
    }
    r
}

pub fn small_strided<S: Shape, const N: usize>(d: [usize; N], max: isize, f: impl FnOnce(&mut Slice<u8, S, Strided>, [usize; N], [isize; N])) {
    let s = nd::within_n::<N>(max);
    let mut v = strided_mut::<S>(huge(), &d, &s);
    f(&mut v, d, s)
}

pub fn small_dense<S: Shape, const N: usize>(d: [usize; N], f: impl FnOnce(&mut Slice<u8, S>, [usize; N], [isize; N])) {
    let mut v = dense_mut::<S>(huge(), &d);
    f(&mut v, d, row_major(&d))
}
