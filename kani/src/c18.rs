//! C18: serialization.
use crate::model::*;
use crate::nd;
use core::fmt;
use mdarray::*;
use serde::de::{self, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer, forward_to_deserialize_any};

/// The reference data format: values, and sequences between `OPEN` + length and `CLOSE`. The kinds
/// of the tokens are kept apart from the values, so that the nesting is known to the verifier.
const VALUE: u32 = 0;
const CLOSE: u32 = 256;
const OPEN: u32 = 1024;
const MAX: usize = 40;

#[derive(Clone, Copy)]
struct Tokens {
    kind: [u32; MAX],
    value: [u8; MAX],
    len: usize,
}

impl Tokens {
    fn new() -> Self {
        Self { kind: [0; MAX], value: [0; MAX], len: 0 }
    }
    fn push(&mut self, kind: u32, value: u8) {
        self.kind[self.len] = kind;
        self.value[self.len] = value;
        self.len += 1;
    }
}

#[derive(Debug)]
struct Refused;

impl fmt::Display for Refused {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Refused {}
impl ser::Error for Refused {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Refused
    }
}
impl de::Error for Refused {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Refused
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Refused
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Refused
    }
}

struct Ser<'a>(&'a mut Tokens);
struct Seq<'a>(&'a mut Tokens);

impl SerializeSeq for Seq<'_> {
    type Ok = ();
    type Error = Refused;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Refused> {
        x.serialize(Ser(self.0))
    }
    fn end(self) -> Result<(), Refused> {
        self.0.push(CLOSE, 0);
        Ok(())
    }
}

macro_rules! refuse {
    ($($name:ident($($t:ty),*) -> $r:ty;)*) => {
        $(fn $name(self, $(_: $t),*) -> Result<$r, Refused> { Err(Refused) })*
    };
}

impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = Refused;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Impossible<(), Refused>;
    type SerializeTupleStruct = Impossible<(), Refused>;
    type SerializeTupleVariant = Impossible<(), Refused>;
    type SerializeMap = Impossible<(), Refused>;
    type SerializeStruct = Impossible<(), Refused>;
    type SerializeStructVariant = Impossible<(), Refused>;

    fn serialize_u8(self, x: u8) -> Result<(), Refused> {
        self.0.push(VALUE, x);
        Ok(())
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Seq<'a>, Refused> {
        self.0.push(OPEN + len.unwrap_or(99) as u32, 0);
        Ok(Seq(self.0))
    }
    refuse! {
        serialize_bool(bool) -> (); serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> ();
        serialize_i64(i64) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> (); serialize_u64(u64) -> ();
        serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> ();
        serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> ();
        serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_tuple(usize) -> Self::SerializeTuple; serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_map(Option<usize>) -> Self::SerializeMap; serialize_struct(&'static str, usize) -> Self::SerializeStruct;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Refused> {
        Err(Refused)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Refused> {
        Err(Refused)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Refused> {
        Err(Refused)
    }
}

struct De<'a> {
    tokens: &'a Tokens,
    pos: &'a mut usize,
    hint: bool,
}

struct Items<'a, 'b> {
    de: &'a mut De<'b>,
    left: usize,
}

impl<'de> SeqAccess<'de> for Items<'_, '_> {
    type Error = Refused;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Refused> {
        if self.de.tokens.kind[*self.de.pos] == CLOSE {
            return Ok(None);
        }
        self.left = self.left.wrapping_sub(1);
        seed.deserialize(De { tokens: self.de.tokens, pos: &mut *self.de.pos, hint: self.de.hint }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        if self.de.hint { Some(self.left) } else { None }
    }
}

impl<'de> Deserializer<'de> for De<'_> {
    type Error = Refused;
    fn deserialize_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Refused> {
        let (t, x) = (self.tokens.kind[*self.pos], self.tokens.value[*self.pos]);
        *self.pos += 1;
        if t == VALUE {
            v.visit_u8(x)
        } else {
            let r = v.visit_seq(Items { de: &mut self, left: (t - OPEN) as usize })?;
            assert!(self.tokens.kind[*self.pos] == CLOSE);
            *self.pos += 1;
            Ok(r)
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Tokens of nested sequences of the given sizes; `get` is the element at a multi-index.
fn tokens(d: &[usize], get: &mut impl FnMut() -> u8, out: &mut Tokens) {
    if d.len() == 0 {
        let x = get();
        out.push(VALUE, x);
    } else {
        out.push(OPEN + d[0] as u32, 0);
        for _ in 0..d[0] {
            tokens(&d[1..], get, out);
        }
        out.push(CLOSE, 0);
    }
}

fn any<const N: usize>() -> [u8; N] {
    let mut x = [0; N];
    for i in 0..N {
        x[i] = nd::u8();
    }
    x
}

/// Nested sequences of the given sizes with the given elements in row-major order.
fn nested(d: &[usize], x: &[u8]) -> Tokens {
    let mut t = Tokens::new();
    let mut n = 0;
    tokens(d, &mut || { n += 1; x[n - 1] }, &mut t);
    t
}

fn serialized<X: Serialize + ?Sized>(x: &X) -> Tokens {
    let mut t = Tokens::new();
    assert!(x.serialize(Ser(&mut t)).is_ok());
    t
}

fn same(a: &Tokens, b: &Tokens) {
    assert!(a.len == b.len);
    for i in 0..b.len {
        assert!(a.kind[i] == b.kind[i] && a.value[i] == b.value[i]);
    }
}

fn deserialized<'a, X: Deserialize<'a>>(t: &Tokens, hint: bool) -> Result<X, Refused> {
    let mut pos = 0;
    let r = X::deserialize(De { tokens: t, pos: &mut pos, hint });
    if r.is_ok() {
        assert!(pos == t.len);
    }
    r
}

fn tensor_is<S: Shape>(t: &Slice<u8, S>, d: &[usize], x: &[u8]) {
    assert!(t.rank() == d.len());
    for i in 0..d.len() {
        assert!(t.dim(i) == d[i]);
    }
    assert!(t.len() == x.len());
    for i in 0..x.len() {
        assert!(unsafe { *t.as_ptr().add(i) } == x[i]);
    }
}

/// Serialization of a dense array.
fn writes<S: Shape, const N: usize, const K: usize>(d: [usize; N]) {
    let x = any::<K>();
    let v = dense::<S>(x.as_ptr(), &d);
    same(&serialized(&v), &nested(&d, &x));
}

/// Serialization of a strided view.
fn writes_strided<S: Shape, const N: usize, const K: usize>(d: [usize; N], max: isize) {
    let buf = BUF;
    let s = nd::within_n::<N>(max);
    let v = strided::<S>(unsafe { buf.as_ptr().add(MID) }, &d, &s);
    let mut x = [0; K];
    for n in 0..K {
        x[n] = (MID as isize + addr(&s, &unlinear(&d, n))) as u8;
    }
    same(&serialized(&v), &nested(&d, &x));
}

/// Deserialization of nested sequences.
fn reads<S: Shape, const N: usize, const K: usize>(d: [usize; N], hint: bool) {
    let x = any::<K>();
    match deserialized::<Tensor<u8, S>>(&nested(&d, &x), hint) {
        Ok(t) => tensor_is(&t, &d, &x),
        Err(_) => assert!(false),
    }
}

fn reads_array<S: ConstShape, const N: usize, const K: usize>(d: [usize; N], hint: bool) {
    let x = any::<K>();
    match deserialized::<Array<u8, S>>(&nested(&d, &x), hint) {
        Ok(t) => tensor_is(&t, &d, &x),
        Err(_) => assert!(false),
    }
}

fn refused<X: for<'a> Deserialize<'a>>(t: &[u32]) {
    let mut k = Tokens::new();
    for x in t {
        if *x < CLOSE { k.push(VALUE, nd::u8()) } else { k.push(*x, 0) }
    }
    let mut pos = 0;
    assert!(X::deserialize(De { tokens: &k, pos: &mut pos, hint: false }).is_err());
}

const O: u32 = OPEN;
const C: u32 = CLOSE;
type C2 = (Const<2>,);
type C23 = (Const<2>, Const<3>);
type C222 = (Const<2>, Const<2>, Const<2>);

proofs! {
    // Writing.
    holds(24) fn b_write_0() { writes::<R0, 0, 1>([]) }
    holds(24) fn b_write_1() { writes::<R1, 1, 4>([4]) }
    holds(24) fn b_write_2() { writes::<R2, 2, 6>([2, 3]) }
    holds(24) fn b_write_2_row() { writes::<R2, 2, 4>([1, 4]) }
    holds(24) fn b_write_2_col() { writes::<R2, 2, 4>([4, 1]) }
    holds(24) fn b_write_3() { writes::<R3, 3, 8>([2, 2, 2]) }
    holds(24) fn b_write_3_long() { writes::<R3, 3, 6>([1, 3, 2]) }
    holds(24) fn b_write_4() { writes::<R4, 4, 4>([2, 1, 2, 1]) }
    holds(24) fn b_write_5() { writes::<R5, 5, 4>([1, 2, 1, 1, 2]) }
    holds(40) fn b_write_6() { writes::<R6, 6, 4>([2, 1, 1, 1, 2, 1]) }
    holds(24) fn b_write_const() { writes::<C23, 2, 6>([2, 3]) }
    holds(24) fn b_write_mixed() { writes::<(Dyn, Const<3>), 2, 6>([2, 3]) }
    holds(24) fn b_write_s1() { writes_strided::<R1, 1, 4>([4], 20) }
    holds(24) fn b_write_s2() { writes_strided::<R2, 2, 6>([2, 3], 20) }
    holds(24) fn b_write_s3() { writes_strided::<R3, 3, 8>([2, 2, 2], 20) }
    holds(24) fn b_write_s4() { writes_strided::<R4, 4, 4>([2, 1, 1, 2], 20) }
    holds(24) fn b_write_array() {
        let x = any::<6>();
        let a = Array::<u8, C23>::from([[x[0], x[1], x[2]], [x[3], x[4], x[5]]]);
        same(&serialized(&a), &nested(&[2, 3], &x));
    }
    holds(24) fn b_write_array_0() {
        let x = any::<1>();
        let a: Array<u8, ()> = array![x[0]].into_shape();
        same(&serialized(&a), &nested(&[], &x));
    }
    holds(24) fn b_write_tensor() {
        let x = any::<4>();
        let a = tensor![[x[0], x[1]], [x[2], x[3]]];
        same(&serialized(&a), &nested(&[2, 2], &x));
    }
    holds(24) fn b_write_slice() {
        let x = any::<6>();
        let v = dense::<R2>(x.as_ptr(), &[2, 3]);
        same(&serialized::<Slice<u8, R2>>(&v), &nested(&[2, 3], &x));
    }
    holds(24) fn b_write_view_mut() {
        let mut x = any::<6>();
        let v = dense_mut::<R2>(x.as_mut_ptr(), &[3, 2]);
        let t = serialized(&v);
        same(&t, &nested(&[3, 2], &x));
    }
    holds(24) fn b_write_view() {
        let x = any::<6>();
        let v = dense::<R2>(x.as_ptr(), &[2, 3]);
        same(&serialized(&v.view(.., 1..)), &nested(&[2, 2], &[x[1], x[2], x[4], x[5]]));
    }
    holds(24) fn b_write_transposed() {
        let x = any::<6>();
        let v = dense::<R2>(x.as_ptr(), &[2, 3]);
        same(&serialized(&v.reorder()), &nested(&[3, 2], &[x[0], x[3], x[1], x[4], x[2], x[5]]));
    }
    holds(24) fn b_write_empty() {
        let x = any::<1>();
        same(&serialized(&dense::<R1>(x.as_ptr(), &[0])), &nested(&[0], &[]));
        same(&serialized(&dense::<R2>(x.as_ptr(), &[0, 3])), &nested(&[0, 3], &[]));
        same(&serialized(&dense::<R2>(x.as_ptr(), &[3, 0])), &nested(&[3, 0], &[]));
        same(&serialized(&dense::<R3>(x.as_ptr(), &[1, 2, 0])), &nested(&[1, 2, 0], &[]));
    }

    // Reading.
    holds(34) fn b_read_0() { reads::<R0, 0, 1>([], true) }
    holds(34) fn b_read_1() { reads::<R1, 1, 3>([3], true) }
    holds(34) fn b_read_1_nohint() { reads::<R1, 1, 3>([3], false) }
    holds(34) fn b_read_1_empty() { reads::<R1, 1, 0>([0], true) }
    holds(34) fn b_read_2() { reads::<R2, 2, 6>([2, 3], true) }
    holds(34) fn b_read_2_nohint() { reads::<R2, 2, 6>([3, 2], false) }
    holds(34) fn b_read_2_empty() { reads::<R2, 2, 0>([2, 0], true) }
    holds(34) fn b_read_3() { reads::<R3, 3, 8>([2, 2, 2], true) }
    holds(34) fn b_read_3_nohint() { reads::<R3, 3, 4>([1, 2, 2], false) }
    holds(34) fn b_read_4() { reads::<R4, 4, 4>([2, 1, 2, 1], true) }
    holds(34) fn b_read_5() { reads::<R5, 5, 2>([1, 1, 2, 1, 1], true) }
    holds(34) fn b_read_6() { reads::<R6, 6, 2>([1, 2, 1, 1, 1, 1], true) }
    holds(34) fn b_read_const() { reads::<C23, 2, 6>([2, 3], true) }
    holds(34) fn b_read_mixed() { reads::<(Dyn, Const<3>), 2, 6>([2, 3], true) }
    holds(34) fn b_read_mixed2() { reads::<(Const<2>, Dyn), 2, 6>([2, 3], false) }
    holds(34) fn b_read_array_0() { reads_array::<(), 0, 1>([], true) }
    holds(34) fn b_read_array_1() { reads_array::<C2, 1, 2>([2], true) }
    holds(34) fn b_read_array_2() { reads_array::<C23, 2, 6>([2, 3], true) }
    holds(34) fn b_read_array_3() { reads_array::<C222, 3, 8>([2, 2, 2], false) }

    // Refusing.
    refuses(34) fn b_ragged_short() { refused::<Tensor<u8, R2>>(&[O + 2, O + 2, 1, 2, C, O + 1, 3, C, C]) }
    refuses(34) fn b_ragged_long() { refused::<Tensor<u8, R2>>(&[O + 2, O + 1, 1, C, O + 2, 2, 3, C, C]) }
    refuses(34) fn b_ragged_empty() { refused::<Tensor<u8, R2>>(&[O + 2, O, C, O + 2, 2, 3, C, C]) }
    refuses(34) fn b_ragged_last_empty() { refused::<Tensor<u8, R2>>(&[O + 2, O + 1, 1, C, O, C, C]) }
    refuses(34) fn b_ragged_3_outer() { refused::<Tensor<u8, R3>>(&[O + 2, O + 1, O + 2, 1, 2, C, C, O + 2, O + 1, 1, C, O + 1, 1, C, C, C]) }
    refuses(34) fn b_ragged_3_inner() { refused::<Tensor<u8, R3>>(&[O + 1, O + 2, O + 2, 1, 2, C, O + 1, 3, C, C, C]) }
    refuses(34) fn b_const_short() { refused::<Tensor<u8, (Const<2>,)>>(&[O + 1, 1, C]) }
    refuses(34) fn b_const_long() { refused::<Tensor<u8, (Const<2>,)>>(&[O + 3, 1, 2, 3, C]) }
    refuses(34) fn b_const_outer() { refused::<Tensor<u8, C23>>(&[O + 1, O + 3, 1, 2, 3, C, C]) }
    refuses(34) fn b_const_inner() { refused::<Tensor<u8, C23>>(&[O + 2, O + 2, 1, 2, C, O + 2, 3, 4, C, C]) }
    refuses(34) fn b_const_second() { refused::<Tensor<u8, (Dyn, Const<2>)>>(&[O + 2, O + 2, 1, 2, C, O + 1, 3, C, C]) }
    refuses(34) fn b_const_array() { refused::<Array<u8, C2>>(&[O + 3, 1, 2, 3, C]) }
    refuses(34) fn b_const_array_short() { refused::<Array<u8, C2>>(&[O + 1, 1, C]) }
    refuses(34) fn b_const_array_2() { refused::<Array<u8, C23>>(&[O + 3, O + 2, 1, 2, C, O + 2, 3, 4, C, O + 2, 5, 6, C, C]) }
    refuses(34) fn b_shallow() { refused::<Tensor<u8, R2>>(&[O + 2, 1, 2, C]) }
    refuses(34) fn b_deep() { refused::<Tensor<u8, R1>>(&[O + 1, O + 1, 1, C, C]) }
    refuses(34) fn b_value() { refused::<Tensor<u8, R1>>(&[1]) }
    refuses(34) fn b_sequence() { refused::<Tensor<u8, R0>>(&[O + 1, 1, C]) }
}
