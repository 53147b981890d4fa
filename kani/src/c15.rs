//! C15: conversions and macros.
use crate::model::*;
use crate::nd;
use mdarray::expr::*;
use mdarray::*;
use std::borrow::{Borrow, BorrowMut};

type C2 = (Const<2>,);
type C3 = (Const<3>,);
type C23 = (Const<2>, Const<3>);

/// An element that is cloned but not copied.
#[derive(Debug)]
struct El(u8);

impl Clone for El {
    fn clone(&self) -> Self {
        El(self.0)
    }
}

fn dims<S: Shape, L: Layout, T>(v: &Slice<T, S, L>, d: &[usize]) {
    assert!(v.rank() == d.len());
    for i in 0..d.len() {
        assert!(v.dim(i) == d[i]);
    }
}

/// A dense array with the given sizes and elements.
fn is<S: Shape>(v: &Slice<u8, S>, d: &[usize], x: &[u8]) {
    dims(v, d);
    for i in 0..x.len() {
        assert!(unsafe { *v.as_ptr().add(i) } == x[i]);
    }
}

fn is_el<S: Shape>(v: &Slice<El, S>, d: &[usize], x: &[u8]) {
    dims(v, d);
    for i in 0..x.len() {
        assert!(unsafe { (*v.as_ptr().add(i)).0 } == x[i]);
    }
}

fn any<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for i in 0..N {
        a[i] = nd::u8();
    }
    a
}

fn at<T>(r: &T) -> usize {
    r as *const T as usize
}

fn els<const N: usize>(x: [u8; N]) -> [El; N] {
    x.map(El)
}

/// Nested array literals of any kind.
macro_rules! nested {
    ($x:ident; 1) => { [$x[0], $x[1], $x[2]] };
    ($x:ident; 2) => { [[$x[0], $x[1], $x[2]], [$x[3], $x[4], $x[5]]] };
    ($x:ident; 3) => { [[[$x[0], $x[1]], [$x[2], $x[3]]], [[$x[4], $x[5]], [$x[6], $x[7]]], [[$x[8], $x[9]], [$x[10], $x[11]]]] };
    ($x:ident; 4) => { [[[[$x[0], $x[1]]], [[$x[2], $x[3]]], [[$x[4], $x[5]]]], [[[$x[6], $x[7]]], [[$x[8], $x[9]]], [[$x[10], $x[11]]]]] };
    ($x:ident; 5) => { [[[[[$x[0], $x[1], $x[2]]], [[$x[3], $x[4], $x[5]]]]], [[[[$x[6], $x[7], $x[8]]], [[$x[9], $x[10], $x[11]]]]]] };
    ($x:ident; 6) => { [[[[[[$x[0]], [$x[1]]], [[$x[2]], [$x[3]]], [[$x[4]], [$x[5]]]]]], [[[[[$x[6]], [$x[7]]], [[$x[8]], [$x[9]]], [[$x[10]], [$x[11]]]]]]] };
}

const D1: [usize; 1] = [3];
const D2: [usize; 2] = [2, 3];
const D3: [usize; 3] = [3, 2, 2];
const D4: [usize; 4] = [2, 3, 1, 2];
const D5: [usize; 5] = [2, 1, 2, 1, 3];
const D6: [usize; 6] = [2, 1, 1, 3, 2, 1];

/// Nested arrays to arrays, tensors and views, and back.
macro_rules! roundtrip {
    ($n:tt, $k:literal, $d:ident, $r:ty, $nested:ty) => {{
        let x = any::<$k>();
        let mut y: $nested = nested!(x; $n);
        match nd::upto(5) {
            0 => {
                let a = Array::from(y);
                is(&a, &$d, &x);
                is(&Array::from(&y), &$d, &x);
                let r: &Array<u8, _> = y.as_ref();
                is(r, &$d, &x);
                assert!(at(r) == at(&y));
                let z: $nested = a.into();
                assert!(z == y);
            }
            1 => {
                let t = Tensor::<u8, $r>::from(y);
                is(&t, &$d, &x);
                let z: Result<$nested, _> = t.try_into();
                match z {
                    Ok(z) => assert!(z == y),
                    Err(_) => assert!(false),
                }
            }
            2 => is(&Tensor::<u8, $r>::from(&y), &$d, &x),
            3 => {
                let v = View::<u8, $r>::from(&y);
                is(&v, &$d, &x);
                assert!(v.as_ptr() as usize == at(&y));
                let z: Result<&$nested, _> = v.try_into();
                match z {
                    Ok(z) => assert!(at(z) == at(&y)),
                    Err(_) => assert!(false),
                }
            }
            4 => {
                let p = at(&y);
                let mut v = ViewMut::<u8, $r>::from(&mut y);
                is(&v, &$d, &x);
                assert!(v.as_mut_ptr() as usize == p);
                let z: Result<&mut $nested, _> = v.try_into();
                match z {
                    Ok(z) => assert!(at(z) == p),
                    Err(_) => assert!(false),
                }
            }
            _ => {
                let p = at(&y);
                let r: &mut Array<u8, _> = y.as_mut();
                assert!(at(r) == p);
                is(r, &$d, &x);
            }
        }
    }};
}

/// Conversion of a tensor or view to a nested array of another shape is refused, and gives the argument back.
fn refused() {
    let x = any::<6>();
    let y = nested!(x; 2);
    match nd::upto(3) {
        0 => {
            let z: Result<[[u8; 2]; 3], _> = Tensor::<u8, R2>::from(y).try_into();
            match z {
                Ok(_) => assert!(false),
                Err(t) => is(&t, &D2, &x),
            }
        }
        1 => {
            let z: Result<&[[u8; 3]; 1], _> = View::<u8, R2>::from(&y).try_into();
            match z {
                Ok(_) => assert!(false),
                Err(t) => is(&t, &D2, &x),
            }
        }
        2 => {
            let mut y = y;
            let z: Result<&mut [[u8; 1]; 2], _> = ViewMut::<u8, R2>::from(&mut y).try_into();
            match z {
                Ok(_) => assert!(false),
                Err(t) => is(&t, &D2, &x),
            }
        }
        _ => {
            let z: Result<[u8; 2], _> = Tensor::<u8, R1>::from([x[0], x[1], x[2]]).try_into();
            match z {
                Ok(_) => assert!(false),
                Err(t) => is(&t, &D1, &x[..3]),
            }
        }
    }
}

/// For all sizes: a view converts to a nested array exactly if the sizes are the same.
fn refused_any() {
    let d = nd::usizes::<2>();
    let z: Result<&[[u8; 3]; 2], _> = dense::<R2>(huge(), &d).try_into();
    assert!(z.is_ok() == (d[0] == 2 && d[1] == 3));
    let z: Result<&mut [[u8; 3]; 2], _> = dense_mut::<R2>(huge(), &d).try_into();
    assert!(z.is_ok() == (d[0] == 2 && d[1] == 3));
}

/// The elements of a strided view in row-major order.
fn picked<const N: usize, const K: usize>(b: &[u8], start: usize, d: [usize; N], s: [isize; N]) -> [u8; K] {
    let mut x = [0; K];
    for n in 0..K {
        x[n] = b[(start as isize + addr(&s, &unlinear(&d, n))) as usize];
    }
    x
}

/// Copies of a strided view.
fn copied<S: Shape, const N: usize, const K: usize>(d: [usize; N], start: usize, s: [isize; N], what: u8) {
    let b = any::<12>();
    let x = picked::<N, K>(&b, start, d, s);
    let v = strided::<S>(b[start..].as_ptr(), &d, &s);
    match what {
        0 => is(&v.to_tensor(), &d, &x),
        1 => {
            let y = v.to_vec();
            assert!(y.len() == K);
            for i in 0..K {
                assert!(y[i] == x[i]);
            }
        }
        _ => is(&Tensor::from(v), &d, &x),
    }
}

/// Copies of a dense view.
fn copied_dense<S: Shape, const N: usize, const K: usize>(d: [usize; N], what: u8) {
    let x = any::<K>();
    let v = dense::<S>(x.as_ptr(), &d);
    match what {
        0 => is(&v.to_tensor(), &d, &x),
        1 => {
            let y = v.to_vec();
            assert!(y.len() == K);
            for i in 0..K {
                assert!(y[i] == x[i]);
            }
        }
        _ => is(<_ as Borrow<Slice<u8, S>>>::borrow(&(*v).to_owned()), &d, &x),
    }
}

fn tensor<S: Shape>(d: &[usize], x: &[u8]) -> Tensor<u8, S> {
    let mut v = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        v.push(x[i]);
    }
    Tensor::from(v).into_shape(shape::<S>(d))
}

fn tensor_el<S: Shape>(d: &[usize], x: &[u8]) -> Tensor<El, S> {
    let mut v = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        v.push(El(x[i]));
    }
    Tensor::from(v).into_shape(shape::<S>(d))
}

/// Cloning into a tensor of any other size.
fn cloned_from<S: Shape, const N: usize, const M: usize, const K: usize>(d: [usize; N], e: [usize; M], what: u8) {
    let x = any::<K>();
    let y = any::<6>();
    let t = tensor_el::<S>(&d, &x);
    let mut u = tensor_el::<S>(&e, &y[..len(&e)]);
    match what {
        0 => u.clone_from(&t),
        1 => {
            let v: &Slice<El, S> = &t;
            u = t.clone();
            let _ = v;
        }
        _ => (),
    }
    is_el(&u, &d, &x);
    is_el(&t, &d, &x);
}

/// `ToOwned::clone_into` for a tensor of any other size.
fn cloned_into<const N: usize, S: Shape, const K: usize>(d: [usize; N], e: &[usize])
where
    Slice<El, S>: ToOwned<Owned = Tensor<El, S>>,
{
    let x = any::<K>();
    let y = any::<6>();
    let t = tensor_el::<S>(&d, &x);
    let mut u = tensor_el::<S>(e, &y[..len(e)]);
    (*t).clone_into(&mut u);
    is_el(&u, &d, &x);
}

crate::proofs! {
    holds(34) fn b_nested_1() { roundtrip!(1, 3, D1, R1, [u8; 3]) }
    holds(34) fn b_nested_2() { roundtrip!(2, 6, D2, R2, [[u8; 3]; 2]) }
    holds(34) fn b_nested_3() { roundtrip!(3, 12, D3, R3, [[[u8; 2]; 2]; 3]) }
    holds(34) fn b_nested_4() { roundtrip!(4, 12, D4, R4, [[[[u8; 2]; 1]; 3]; 2]) }
    holds(50) fn b_nested_5() { roundtrip!(5, 12, D5, R5, [[[[[u8; 3]; 1]; 2]; 1]; 2]) }
    holds(50) fn b_nested_6() { roundtrip!(6, 12, D6, R6, [[[[[[u8; 1]; 2]; 3]; 1]; 1]; 2]) }
    holds(34) fn b_nested_const() { roundtrip!(2, 6, D2, C23, [[u8; 3]; 2]) }
    holds(34) fn b_nested_mixed() { roundtrip!(2, 6, D2, (Dyn, Const<3>), [[u8; 3]; 2]) }
    holds(34) fn b_refused() { refused() }
    holds(34) fn p_refused_any() { refused_any() }
    holds(34) fn b_nested_empty() {
        let y: [[u8; 0]; 2] = [[], []];
        dims(&Tensor::<u8, R2>::from(y), &[2, 0]);
        dims(&View::<u8, R2>::from(&y), &[2, 0]);
        dims(&Array::<u8, (Const<2>, Const<0>)>::from(y), &[2, 0]);
        let z: [[u8; 2]; 0] = [];
        dims(&Tensor::<u8, R2>::from(z), &[0, 2]);
        dims(&Tensor::<u8, R2>::from(&z), &[0, 2]);
    }

    // Macros.
    holds(14) fn b_array_macro() {
        let x = any::<12>();
        is(&array![x[0], x[1], x[2]], &D1, &x[..3]);
        is(&array![[x[0], x[1], x[2]], [x[3], x[4], x[5]]], &D2, &x[..6]);
        is(&array![[[x[0], x[1]], [x[2], x[3]]], [[x[4], x[5]], [x[6], x[7]]], [[x[8], x[9]], [x[10], x[11]]]], &D3, &x);
        is(&array![[[[x[0], x[1]]], [[x[2], x[3]]], [[x[4], x[5]]]], [[[x[6], x[7]]], [[x[8], x[9]]], [[x[10], x[11]]]]], &D4, &x);
        is(&array![[[[[x[0], x[1], x[2]]], [[x[3], x[4], x[5]]]]], [[[[x[6], x[7], x[8]]], [[x[9], x[10], x[11]]]]]], &D5, &x);
        is(&array![[[[[[x[0]], [x[1]]], [[x[2]], [x[3]]], [[x[4]], [x[5]]]]]], [[[[[x[6]], [x[7]]], [[x[8]], [x[9]]], [[x[10]], [x[11]]]]]]], &D6, &x);
    }
    holds(14) fn b_view_macro() {
        let x = any::<12>();
        is(&view![x[0], x[1], x[2]], &D1, &x[..3]);
        is(&view![[x[0], x[1], x[2]], [x[3], x[4], x[5]]], &D2, &x[..6]);
        is(&view![[[x[0], x[1]], [x[2], x[3]]], [[x[4], x[5]], [x[6], x[7]]], [[x[8], x[9]], [x[10], x[11]]]], &D3, &x);
        is(&view![[[[x[0], x[1]]], [[x[2], x[3]]], [[x[4], x[5]]]], [[[x[6], x[7]]], [[x[8], x[9]]], [[x[10], x[11]]]]], &D4, &x);
        is(&view![[[[[x[0], x[1], x[2]]], [[x[3], x[4], x[5]]]]], [[[[x[6], x[7], x[8]]], [[x[9], x[10], x[11]]]]]], &D5, &x);
        is(&view![[[[[[x[0]], [x[1]]], [[x[2]], [x[3]]], [[x[4]], [x[5]]]]]], [[[[[x[6]], [x[7]]], [[x[8]], [x[9]]], [[x[10]], [x[11]]]]]]], &D6, &x);
    }
    holds(14) fn b_tensor_macro() {
        let x = any::<12>();
        is(&tensor![x[0], x[1], x[2]], &D1, &x[..3]);
        is(&tensor![[x[0], x[1], x[2]], [x[3], x[4], x[5]]], &D2, &x[..6]);
        is(&tensor![[[x[0], x[1]], [x[2], x[3]]], [[x[4], x[5]], [x[6], x[7]]], [[x[8], x[9]], [x[10], x[11]]]], &D3, &x);
    }
    holds(14) fn b_tensor_macro_more() {
        let x = any::<12>();
        is(&tensor![[[[x[0], x[1]]], [[x[2], x[3]]], [[x[4], x[5]]]], [[[x[6], x[7]]], [[x[8], x[9]]], [[x[10], x[11]]]]], &D4, &x);
        is(&tensor![[[[[x[0], x[1], x[2]]], [[x[3], x[4], x[5]]]]], [[[[x[6], x[7], x[8]]], [[x[9], x[10], x[11]]]]]], &D5, &x);
        is(&tensor![[[[[[x[0]], [x[1]]], [[x[2]], [x[3]]], [[x[4]], [x[5]]]]]], [[[[[x[6]], [x[7]]], [[x[8]], [x[9]]], [[x[10]], [x[11]]]]]]], &D6, &x);
    }
    holds(14) fn b_array_repeat() {
        let x = nd::u8();
        is(&array![x; 3], &D1, &[x; 3]);
        is(&array![[x; 3]; 2], &D2, &[x; 6]);
        is(&array![[[x; 2]; 2]; 3], &D3, &[x; 12]);
        is(&array![[[[x; 2]; 1]; 3]; 2], &D4, &[x; 12]);
        is(&array![[[[[x; 3]; 1]; 2]; 1]; 2], &D5, &[x; 12]);
        is(&array![[[[[[x; 1]; 2]; 3]; 1]; 1]; 2], &D6, &[x; 12]);
    }
    holds(14) fn b_view_repeat() {
        let x = nd::u8();
        is(&view![x; 3], &D1, &[x; 3]);
        is(&view![[x; 3]; 2], &D2, &[x; 6]);
        is(&view![[[x; 2]; 2]; 3], &D3, &[x; 12]);
        is(&view![[[[x; 2]; 1]; 3]; 2], &D4, &[x; 12]);
        is(&view![[[[[x; 3]; 1]; 2]; 1]; 2], &D5, &[x; 12]);
        is(&view![[[[[[x; 1]; 2]; 3]; 1]; 1]; 2], &D6, &[x; 12]);
    }
    holds(14) fn b_tensor_repeat_1() { let x = nd::u8(); is(&tensor![x; 3], &D1, &[x; 3]); }
    holds(14) fn b_tensor_repeat_2() { let x = nd::u8(); is(&tensor![[x; 3]; 2], &D2, &[x; 6]); }
    holds(14) fn b_tensor_repeat_3() { let x = nd::u8(); is(&tensor![[[x; 2]; 1]; 3], &[3, 1, 2], &[x; 6]); }
    holds(14) fn b_tensor_repeat_4() { let x = nd::u8(); is(&tensor![[[[x; 2]; 1]; 3]; 1], &[1, 3, 1, 2], &[x; 6]); }
    holds(14) fn b_tensor_repeat_5() { let x = nd::u8(); is(&tensor![[[[[x; 3]; 1]; 2]; 1]; 1], &[1, 1, 2, 1, 3], &[x; 6]); }
    holds(14) fn b_tensor_repeat_6() { let x = nd::u8(); is(&tensor![[[[[[x; 1]; 2]; 3]; 1]; 1]; 1], &[1, 1, 1, 3, 2, 1], &[x; 6]); }
    holds(14) fn b_macro_empty() {
        let a: Array<u8, (Const<0>,)> = array![];
        dims(&a, &[0]);
        let t: Tensor<u8, R1> = tensor![];
        dims(&t, &[0]);
    }

    // Vectors and slices.
    holds(14) fn b_vec() {
        let x = any::<3>();
        let mut v = Vec::with_capacity(5);
        v.push(x[0]); v.push(x[1]); v.push(x[2]);
        let p = v.as_ptr();
        let t = Tensor::<u8, R1>::from(v);
        is(&t, &D1, &x);
        assert!(t.as_ptr() == p && t.capacity() == 5);
        let v = t.into_vec();
        assert!(v.as_ptr() == p && v.len() == 3 && v.capacity() == 5);
    }
    holds(14) fn b_vec_from() {
        let x = any::<3>();
        let v: Vec<u8> = Tensor::<u8, R1>::from(x).into();
        assert!(v.len() == 3 && v[0] == x[0] && v[1] == x[1] && v[2] == x[2]);
        let v = Tensor::<u8, R2>::from([[x[0]], [x[1]], [x[2]]]).into_vec();
        assert!(v.len() == 3 && v[0] == x[0] && v[1] == x[1] && v[2] == x[2]);
    }
    holds(14) fn b_slice() {
        let mut x = any::<3>();
        let y = x;
        is(&Tensor::from(&x[..]), &D1, &x);
        let v = View::from(&x[..]);
        is(&v, &D1, &x);
        assert!(v.as_ptr() == x.as_ptr());
        let r: &[u8] = v.into();
        assert!(r.as_ptr() == x.as_ptr() && r.len() == 3);
        let p = x.as_ptr();
        let mut v = ViewMut::from(&mut x[..]);
        is(&v, &D1, &y);
        assert!(v.as_mut_ptr() as *const u8 == p);
        let r: &mut [u8] = v.into();
        assert!(r.as_ptr() == p && r.len() == 3);
    }
    holds(14) fn p_slice_any() {
        let n = nd::usize();
        nd::assume(n <= 1 << 40);
        let s = unsafe { std::slice::from_raw_parts(huge() as *const u8, n) };
        let v = View::from(s);
        assert!(v.as_ptr() == s.as_ptr() && v.dim(0) == n && v.len() == n);
        let r: &[u8] = v.into();
        assert!(r.as_ptr() == s.as_ptr() && r.len() == n);
        let w = dense_mut::<R1>(s.as_ptr() as *mut u8, &[n]);
        let r: &mut [u8] = w.into();
        assert!(r.as_ptr() == s.as_ptr() && r.len() == n);
    }
    holds(14) fn b_iter() {
        let x = any::<3>();
        let t: Tensor<u8, R1> = x.iter().copied().collect();
        is(&t, &D1, &x);
    }
    holds(14) fn b_extend() {
        let x = any::<5>();
        let mut t = Tensor::<u8, R1>::from([x[0], x[1]]);
        t.extend([x[2], x[3], x[4]]);
        is(&t, &[5], &x);
        let mut t = Tensor::<u8, R1>::new();
        t.extend(&x[..2]);
        is(&t, &[2], &x[..2]);
    }

    // Arrays, tensors and views.
    holds(14) fn b_array_tensor() {
        let x = any::<6>();
        let y = nested!(x; 2);
        let t = Tensor::from(Array::from(y));
        is(&t, &D2, &x);
        let a = Array::<u8, C23>::from(t);
        is(&a, &D2, &x);
    }
    holds(14) fn b_array_tensor_el() {
        let x = any::<3>();
        let t = Tensor::from(Array::from(els(x)));
        is_el(&t, &D1, &x);
        let a = Array::<El, C3>::from(t);
        is_el(&a, &D1, &x);
        is_el(&a.clone(), &D1, &x);
    }
    holds(14) fn b_array_from_view() {
        let x = any::<6>();
        let a = Array::from(nested!(x; 2));
        is(&Array::<u8, C23>::from(&a), &D2, &x);
        is(&a.to_array(), &D2, &x);
    }
    holds(14) fn b_array_from_strided() {
        let b = any::<6>();
        let x = picked::<2, 6>(&b, 0, [2, 3], [1, 2]);
        is(&strided::<C23>(b.as_ptr(), &[2, 3], &[1, 2]).to_array(), &D2, &x);
    }
    holds(14) fn b_array_from_elem() { let x = nd::u8(); is(&Array::<u8, C23>::from_elem(x), &D2, &[x; 6]); }
    holds(14) fn b_array_from_fn() {
        let x = any::<6>();
        is(&Array::<u8, C23>::from_fn(|i| x[i[0] * 3 + i[1]]), &D2, &x);
    }
    holds(14) fn b_tensor_from_elem() { let x = nd::u8(); is(&Tensor::<u8, R2>::from_elem([2, 3], x), &D2, &[x; 6]); }
    holds(14) fn b_tensor_from_fn() {
        let x = any::<6>();
        is(&Tensor::<u8, R2>::from_fn([2, 3], |i| x[i[0] * 3 + i[1]]), &D2, &x);
    }
    holds(14) fn b_to_tensor_dense() { copied_dense::<R2, 2, 6>([2, 3], 0) }
    holds(14) fn b_to_vec_dense() { copied_dense::<R2, 2, 6>([2, 3], 1) }
    holds(14) fn b_to_owned_dense() { copied_dense::<R2, 2, 6>([2, 3], 2) }
    holds(14) fn b_to_owned_const() { copied_dense::<C23, 2, 6>([2, 3], 2) }
    holds(14) fn b_to_owned_mixed() { copied_dense::<(Dyn, Const<3>), 2, 6>([2, 3], 2) }
    holds(14) fn b_to_owned_mixed2() { copied_dense::<(Const<2>, Dyn), 2, 6>([2, 3], 2) }
    holds(14) fn b_to_owned_dyn() { copied_dense::<DynRank, 2, 6>([2, 3], 2) }
    holds(14) fn b_to_owned_r0() { copied_dense::<R0, 0, 1>([], 2) }
    holds(14) fn b_to_owned_r3() { copied_dense::<R3, 3, 4>([2, 1, 2], 2) }
    holds(14) fn b_to_tensor_r0() { copied_dense::<R0, 0, 1>([], 0) }
    holds(14) fn b_to_tensor_empty() { copied_dense::<R2, 2, 0>([2, 0], 0) }
    holds(14) fn b_to_tensor_hollow() { copied_dense::<R2, 2, 0>([0, 2], 0) }
    holds(14) fn b_to_tensor_s1() { copied::<R1, 1, 4>([4], 9, [-3], 0) }
    holds(14) fn b_to_tensor_s2() { copied::<R2, 2, 6>([2, 3], 0, [1, 2], 0) }
    holds(14) fn b_to_vec_s2() { copied::<R2, 2, 6>([3, 2], 11, [-1, -4], 1) }
    holds(14) fn b_from_s2() { copied::<R2, 2, 4>([2, 2], 0, [3, 1], 2) }
    holds(14) fn b_to_tensor_s3() { copied::<R3, 3, 8>([2, 2, 2], 0, [1, 2, 4], 0) }
    holds(14) fn b_to_tensor_sdyn() { copied::<DynRank, 2, 4>([2, 2], 0, [1, 2], 0) }
    holds(14) fn b_to_tensor_sempty() { copied::<R2, 2, 0>([2, 0], 0, [1, 2], 0) }

    // Cloning into existing objects.
    holds(14) fn b_clone() { cloned_from::<R2, 2, 2, 6>([2, 3], [1, 1], 1) }
    holds(14) fn b_clone_dyn() { cloned_from::<DynRank, 2, 1, 6>([2, 3], [1], 1) }
    holds(14) fn b_clone_from_smaller() { cloned_from::<R2, 2, 2, 6>([2, 3], [1, 2], 0) }
    holds(14) fn b_clone_from_larger() { cloned_from::<R2, 2, 2, 2>([1, 2], [2, 3], 0) }
    holds(14) fn b_clone_from_same() { cloned_from::<R2, 2, 2, 6>([2, 3], [3, 2], 0) }
    holds(14) fn b_clone_from_empty() { cloned_from::<R2, 2, 2, 0>([2, 0], [2, 1], 0) }
    holds(14) fn b_clone_from_into_empty() { cloned_from::<R2, 2, 2, 2>([2, 1], [0, 0], 0) }
    holds(14) fn b_clone_from_dyn() { cloned_from::<DynRank, 2, 2, 6>([2, 3], [1, 2], 0) }
    holds(14) fn b_clone_from_dyn_rank() { cloned_from::<DynRank, 2, 3, 6>([2, 3], [1, 2, 1], 0) }
    holds(14) fn b_clone_from_dyn_one() { cloned_from::<DynRank, 1, 2, 3>([3], [1, 2], 0) }
    holds(14) fn b_clone_from_one_dyn() { cloned_from::<DynRank, 2, 1, 4>([2, 2], [3], 0) }
    holds(14) fn b_clone_from_dyn_zero() { cloned_from::<DynRank, 0, 1, 1>([], [3], 0) }
    holds(14) fn b_clone_into() { cloned_into::<2, R2, 6>([2, 3], &[1, 2]) }
    holds(14) fn b_clone_into_larger() { cloned_into::<2, R2, 2>([1, 2], &[3, 2]) }
    holds(14) fn b_clone_into_dyn() { cloned_into::<2, DynRank, 6>([2, 3], &[2]) }
    holds(14) fn b_clone_into_mixed() { cloned_into::<2, (Const<2>, Dyn), 6>([2, 3], &[2, 1]) }
    holds(34) fn b_clone_into_array() {
        let x = any::<6>();
        let a = Array::from(nested!(x; 2));
        let mut b = Array::<u8, C23>::from_elem(nd::u8());
        let r: &Slice<u8, C23> = &a;
        r.clone_into(&mut b);
        is(&b, &D2, &x);
        let mut c = Array::<u8, C23>::from_elem(nd::u8());
        c.clone_from(&a);
        is(&c, &D2, &x);
    }
    holds(14) fn b_view_clone() {
        let x = any::<6>();
        let v = dense::<R2>(x.as_ptr(), &D2);
        let mut w = dense::<R2>(huge(), &[1, 1]);
        w.clone_from(&v);
        is(&w, &D2, &x);
        assert!(w.as_ptr() == v.as_ptr());
        let u = strided::<DynRank>(x.as_ptr(), &[3, 2], &[1, 3]);
        let mut w = strided::<DynRank>(huge(), &[2], &[5]);
        w.clone_from(&u);
        is_view(&w, x.as_ptr(), 0, &[3, 2], &[1, 3]);
        is_view(&u.clone(), x.as_ptr(), 0, &[3, 2], &[1, 3]);
    }

    // Scalars and raw parts.
    holds(14) fn b_scalar() {
        let x = nd::u8();
        assert!(array![[x]].into_scalar() == x);
        assert!(tensor![[x]].into_scalar() == x);
        assert!(Tensor::<u8, R0>::from_elem((), x).into_scalar() == x);
        assert!(Array::<u8, ()>::from_elem(x).into_scalar() == x);
    }
    holds(14) fn b_raw_parts() {
        let x = any::<6>();
        let mut t = Tensor::<u8, R2>::from(nested!(x; 2));
        t.reserve(3);
        let (p, c) = (t.as_ptr(), t.capacity());
        let (q, m, k) = t.into_raw_parts();
        assert!(q as *const u8 == p && k == c && m.dim(0) == 2 && m.dim(1) == 3);
        let t = unsafe { Tensor::from_raw_parts(q, m, k) };
        is(&t, &D2, &x);
        assert!(t.as_ptr() == p && t.capacity() == c);
    }

    // Borrowing refers to the same memory.
    holds(14) fn b_borrow_array() {
        let x = any::<6>();
        let mut a = Array::from(nested!(x; 2));
        let p = at(&a);
        is(&a, &D2, &x);
        assert!(a.as_ptr() as usize == p && a.as_mut_ptr() as usize == p);
        let r: &Slice<u8, C23> = a.borrow();
        assert!(r.as_ptr() as usize == p);
        let r: &mut Slice<u8, C23> = a.borrow_mut();
        assert!(r.as_ptr() as usize == p);
        let r: &[[u8; 3]; 2] = a.as_ref();
        assert!(at(r) == p);
        let r: &mut [[u8; 3]; 2] = a.as_mut();
        assert!(at(r) == p);
        let r: &Slice<u8, C23> = a.as_ref();
        assert!(r.as_ptr() as usize == p);
        let r: &mut Slice<u8, C23> = a.as_mut();
        assert!(r.as_ptr() as usize == p);
        let v = View::from(&a);
        assert!(v.as_ptr() as usize == p);
        is(&v, &D2, &x);
        let v = ViewMut::from(&mut a);
        assert!(v.as_ptr() as usize == p);
    }
    holds(14) fn b_borrow_array_1() {
        let x = any::<3>();
        let mut a = Array::from(x);
        let p = at(&a);
        let r: &[u8] = a.as_ref();
        assert!(r.as_ptr() as usize == p && r.len() == 3);
        let r: &mut [u8] = a.as_mut();
        assert!(r.as_ptr() as usize == p && r.len() == 3);
        let r: &[u8; 3] = a.as_ref();
        assert!(at(r) == p);
    }
    holds(14) fn b_borrow_tensor() {
        let x = any::<3>();
        let mut t = Tensor::<u8, R1>::from(x);
        let p = t.as_ptr() as usize;
        let r: &Slice<u8, R1> = t.borrow();
        assert!(r.as_ptr() as usize == p);
        let r: &mut Slice<u8, R1> = t.borrow_mut();
        assert!(r.as_ptr() as usize == p);
        let r: &[u8] = t.as_ref();
        assert!(r.as_ptr() as usize == p && r.len() == 3);
        let r: &mut [u8] = t.as_mut();
        assert!(r.as_ptr() as usize == p && r.len() == 3);
        let r: &mut Slice<u8, R1> = t.as_mut();
        assert!(r.as_ptr() as usize == p);
        let v = View::from(&t);
        assert!(v.as_ptr() as usize == p && v.len() == 3);
        let v = ViewMut::from(&mut t);
        assert!(v.as_ptr() as usize == p && v.len() == 3);
    }
    holds(14) fn b_borrow_view() {
        let d = nd::upto_n::<2>(100);
        let s = nd::within_n::<2>(100);
        let p = huge();
        let mut v = strided_mut::<R2>(p, &d, &s);
        is_mapping(v.mapping(), &d, &s);
        let r: &Slice<u8, R2, Strided> = v.borrow();
        assert!(r.as_ptr() == p as *const u8);
        let r: &mut Slice<u8, R2, Strided> = v.borrow_mut();
        assert!(r.as_ptr() == p as *const u8);
        let r: &mut Slice<u8, R2, Strided> = v.as_mut();
        is_view(r, p, 0, &d, &s);
        is_view(&View::from(&*v), p, 0, &d, &s);
        is_view(&v.expr(), p, 0, &d, &s);
        is_view(&v.expr_mut(), p, 0, &d, &s);
        is_view(&(&v).into_expr(), p, 0, &d, &s);
        is_view(&(&mut v).into_expr(), p, 0, &d, &s);
    }
    holds(14) fn b_eval() {
        let x = any::<4>();
        let a = array![[x[0], x[1]], [x[2], x[3]]];
        is(<_ as Borrow<Slice<u8, _>>>::borrow(&a.expr().cloned().eval()), &[2, 2], &x);
        let t: Tensor<u8, _> = Tensor::from_expr(a.expr().cloned());
        is(&t, &[2, 2], &x);
        let b: Array<u8, _> = Array::from_expr(t.into_mapping::<(Const<2>, Const<2>)>());
        is(&b, &[2, 2], &x);
    }
}
