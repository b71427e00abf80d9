use crate::ctx::{check, no_panic, Ctx};
use crate::gen;
use crate::reg::{bits_of, bitseq, gen_name};
use crate::rng::Rng;
use ::serde::de::{self, DeserializeOwned, IntoDeserializer};
use ::serde::ser::{self, Serialize};
use ::serde::{Deserialize, Deserializer, Serializer};
use scale_value::serde as sv;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// What was handed to a serializer, or is offered by a deserializer.
#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Rec>),
    Newtype(Box<Rec>),
    Seq(Option<usize>, Vec<Rec>),
    Map(Option<usize>, Vec<(Rec, Rec)>),
    Other,
}
#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
pub struct Ser;
pub struct SeqS(Option<usize>, Vec<Rec>);
pub struct MapS(Option<usize>, Vec<(Rec, Rec)>, Option<Rec>);
macro_rules! prim {
    ($($f:ident $t:ty => $v:ident),*) => {$(fn $f(self, v: $t) -> Result<Rec, E> { Ok(Rec::$v(v.into())) })*};
}
impl Serializer for Ser {
    type Ok = Rec;
    type Error = E;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = ser::Impossible<Rec, E>;
    type SerializeTupleVariant = ser::Impossible<Rec, E>;
    type SerializeMap = MapS;
    type SerializeStruct = ser::Impossible<Rec, E>;
    type SerializeStructVariant = ser::Impossible<Rec, E>;
    prim!(serialize_bool bool => Bool, serialize_i8 i8 => I8, serialize_i16 i16 => I16, serialize_i32 i32 => I32, serialize_i64 i64 => I64, serialize_i128 i128 => I128,
        serialize_u8 u8 => U8, serialize_u16 u16 => U16, serialize_u32 u32 => U32, serialize_u64 u64 => U64, serialize_u128 u128 => U128, serialize_f32 f32 => F64, serialize_f64 f64 => F64, serialize_char char => Char);
    fn serialize_str(self, v: &str) -> Result<Rec, E> {
        Ok(Rec::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Rec, E> {
        Ok(Rec::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Rec, E> {
        Ok(Rec::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Rec, E> {
        Ok(Rec::Some(Box::new(v.serialize(Ser)?)))
    }
    fn serialize_unit(self) -> Result<Rec, E> {
        Ok(Rec::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Rec, E> {
        Ok(Rec::Other)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Rec, E> {
        Ok(Rec::Other)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Rec, E> {
        Ok(Rec::Newtype(Box::new(v.serialize(Ser)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Rec, E> {
        Ok(Rec::Other)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqS, E> {
        Ok(SeqS(n, vec![]))
    }
    fn serialize_tuple(self, n: usize) -> Result<SeqS, E> {
        Ok(SeqS(Some(n), vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("tuple variant".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapS, E> {
        Ok(MapS(n, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("struct variant".into()))
    }
}
impl ser::SerializeSeq for SeqS {
    type Ok = Rec;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.1.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Rec, E> {
        Ok(Rec::Seq(self.0, self.1))
    }
}
impl ser::SerializeTuple for SeqS {
    type Ok = Rec;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.1.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Rec, E> {
        Ok(Rec::Seq(self.0, self.1))
    }
}
impl ser::SerializeMap for MapS {
    type Ok = Rec;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.2 = Some(v.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let k = self.2.take().ok_or(E("no key".into()))?;
        self.1.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<Rec, E> {
        Ok(Rec::Map(self.0, self.1))
    }
}
impl<'de> IntoDeserializer<'de, E> for Rec {
    type Deserializer = Rec;
    fn into_deserializer(self) -> Rec {
        self
    }
}
impl<'de> Deserializer<'de> for Rec {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self {
            Rec::Bool(x) => v.visit_bool(x),
            Rec::I8(x) => v.visit_i8(x),
            Rec::I16(x) => v.visit_i16(x),
            Rec::I32(x) => v.visit_i32(x),
            Rec::I64(x) => v.visit_i64(x),
            Rec::I128(x) => v.visit_i128(x),
            Rec::U8(x) => v.visit_u8(x),
            Rec::U16(x) => v.visit_u16(x),
            Rec::U32(x) => v.visit_u32(x),
            Rec::U64(x) => v.visit_u64(x),
            Rec::U128(x) => v.visit_u128(x),
            Rec::F64(x) => v.visit_f64(x),
            Rec::Char(x) => v.visit_char(x),
            Rec::Str(x) => {
                if x.len() % 2 == 0 {
                    v.visit_str(&x)
                } else {
                    v.visit_string(x)
                }
            }
            Rec::Bytes(x) => v.visit_bytes(&x),
            Rec::Unit => v.visit_unit(),
            Rec::None => v.visit_none(),
            Rec::Some(x) => v.visit_some(*x),
            Rec::Newtype(x) => v.visit_newtype_struct(*x),
            Rec::Seq(_, x) => v.visit_seq(de::value::SeqDeserializer::new(x.into_iter())),
            Rec::Map(_, x) => v.visit_map(de::value::MapDeserializer::new(x.into_iter())),
            Rec::Other => Err(E("other".into())),
        }
    }
    ::serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn rec_of(v: &Value<u32>) -> Rec {
    match &v.value {
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => Rec::Bool(*b),
            Primitive::Char(b) => Rec::Char(*b),
            Primitive::String(b) => Rec::Str(b.clone()),
            Primitive::U128(n) => {
                let n = *n;
                if n < 1 << 8 {
                    Rec::U8(n as u8)
                } else if n < 1 << 16 {
                    Rec::U16(n as u16)
                } else if n < 1 << 32 {
                    Rec::U32(n as u32)
                } else if n < 1 << 64 {
                    Rec::U64(n as u64)
                } else {
                    Rec::U128(n)
                }
            }
            Primitive::I128(n) => {
                let n = *n;
                let fits = |b: u32| n >= -(1i128 << (b - 1)) && n < 1i128 << (b - 1);
                if fits(8) {
                    Rec::I8(n as i8)
                } else if fits(16) {
                    Rec::I16(n as i16)
                } else if fits(32) {
                    Rec::I32(n as i32)
                } else if fits(64) {
                    Rec::I64(n as i64)
                } else {
                    Rec::I128(n)
                }
            }
            Primitive::U256(b) | Primitive::I256(b) => Rec::Seq(Some(32), b.iter().map(|x| Rec::U8(*x)).collect()),
        },
        ValueDef::BitSequence(b) => {
            let bits = bits_of(b);
            Rec::Map(Some(1), vec![(Rec::Str("__bitvec__values__".into()), Rec::Seq(None, bits.into_iter().map(Rec::Bool).collect()))])
        }
        ValueDef::Composite(c) => rec_of_c(c),
        ValueDef::Variant(x) => Rec::Map(Some(2), vec![(Rec::Str("name".into()), Rec::Str(x.name.clone())), (Rec::Str("values".into()), rec_of_c(&x.values))]),
    }
}
fn rec_of_c(c: &Composite<u32>) -> Rec {
    match c {
        Composite::Named(xs) => Rec::Map(Some(xs.len()), xs.iter().map(|(k, x)| (Rec::Str(k.clone()), rec_of(x))).collect()),
        Composite::Unnamed(xs) => Rec::Seq(Some(xs.len()), xs.iter().map(rec_of).collect()),
    }
}
/// The declared length of the inner bit list is the business of scale-bits; ignore it.
fn norm(r: &Rec) -> Rec {
    match r {
        Rec::Map(n, xs) => Rec::Map(
            *n,
            xs.iter()
                .map(|(k, x)| match (k, x) {
                    (Rec::Str(s), Rec::Seq(_, b)) if s == "__bitvec__values__" => (k.clone(), Rec::Seq(None, b.clone())),
                    _ => (norm(k), norm(x)),
                })
                .collect(),
        ),
        Rec::Seq(n, xs) => Rec::Seq(*n, xs.iter().map(norm).collect()),
        r => r.clone(),
    }
}
pub fn d01(ctx: &mut Ctx) {
    ctx.rule("bounded: every 16-bit number as signed and unsigned, edge and random integers, and random values to depth 5 through a recording serializer; distinct = distinct value");
    let one = |v: &Value<u32>| -> Result<(), String> {
        let want = rec_of(v);
        let got = no_panic("serialize", || v.serialize(Ser))?.map_err(|e| format!("serializing failed: {e}"))?;
        let got = norm(&got);
        check(got == norm(&want), || format!("serialized as {got:?}, expected {want:?}"))?;
        let got = v.value.serialize(Ser).map_err(|e| format!("serializing failed: {e}"))?;
        check(norm(&got) == norm(&want), || format!("the inner value serialized as {got:?}, expected {want:?}"))?;
        let got = match &v.value {
            ValueDef::Primitive(p) => p.serialize(Ser),
            ValueDef::Composite(p) => p.serialize(Ser),
            ValueDef::Variant(p) => p.serialize(Ser),
            _ => return Ok(()),
        };
        let got = got.map_err(|e| format!("serializing failed: {e}"))?;
        check(norm(&got) == norm(&want), || format!("the part serialized as {got:?}, expected {want:?}"))
    };
    let p = |p: Primitive| Value { value: ValueDef::Primitive(p), context: 1u32 };
    ctx.section("small ints", 70000, |c| {
        let n = c.idx as u128;
        c.input(format!("{n}"));
        one(&p(Primitive::U128(n)))?;
        one(&p(Primitive::I128(n as i128)))?;
        one(&p(Primitive::I128(-(n as i128))))
    });
    let n = ctx.n(10000, 400_000);
    ctx.section("ints", n, |c| {
        let (u, i) = (c.rng.edgy_u128(), c.rng.edgy_i128());
        c.input(format!("{u} {i}"));
        one(&p(Primitive::U128(u)))?;
        one(&p(Primitive::I128(i)))
    });
    let n = ctx.n(6000, 300_000);
    ctx.section("random", n, |c| {
        let d = c.rng.below(6);
        let v = gen::value(&mut c.rng, d, true);
        c.input(format!("{v:?}"));
        one(&v)
    });
}

fn de_int<T: DeserializeOwned + Debug + PartialEq + TryFrom<u128> + TryFrom<i128>>(name: &str, p: &Primitive) -> Result<(), String> {
    let want: Option<T> = match p {
        Primitive::U128(n) => T::try_from(*n).ok(),
        Primitive::I128(n) => T::try_from(*n).ok(),
        _ => None,
    };
    let v = Value { value: ValueDef::Primitive(p.clone()), context: 3u32 };
    for (what, got) in [
        ("value", no_panic("from_value", || sv::from_value::<u32, T>(v.clone()))?.map_err(|e| e.to_string())),
        ("inner value", T::deserialize(v.value.clone()).map_err(|e| e.to_string())),
        ("primitive", T::deserialize(p.clone()).map_err(|e| e.to_string())),
    ] {
        match (&got, &want) {
            (Ok(a), Some(b)) if a == b => {}
            (Err(_), None) => {}
            _ => return Err(format!("{p:?} as {what} into {name} gave {got:?}, expected {want:?}")),
        }
    }
    Ok(())
}
fn de_all(p: &Primitive) -> Result<(), String> {
    de_int::<u8>("u8", p)?;
    de_int::<u16>("u16", p)?;
    de_int::<u32>("u32", p)?;
    de_int::<u64>("u64", p)?;
    de_int::<u128>("u128", p)?;
    de_int::<usize>("usize", p)?;
    de_int::<i8>("i8", p)?;
    de_int::<i16>("i16", p)?;
    de_int::<i32>("i32", p)?;
    de_int::<i64>("i64", p)?;
    de_int::<i128>("i128", p)?;
    de_int::<isize>("isize", p)
}
pub fn d02(ctx: &mut Ctx) {
    ctx.rule("bounded: numbers within 300 of zero and of every power of two up to 2^127, and random ones, as signed and unsigned values into all 12 Rust integer types; every integer offer into a value; distinct = distinct number");
    ctx.section("edges", 129 * 600, |c| {
        let bit = (c.idx / 600) as u32;
        let off = (c.idx % 600) as i128 - 300;
        let base = if bit < 128 { 1u128 << bit } else { 0 };
        let u = base.wrapping_add(off as u128);
        c.input(format!("{u}"));
        if off.abs() > 3 && !(7..=9).contains(&bit) && c.idx % 7 != 0 {
            return Ok(());
        }
        de_all(&Primitive::U128(u))?;
        de_all(&Primitive::I128(u as i128))?;
        de_all(&Primitive::I128((u as i128).wrapping_neg()))
    });
    let n = ctx.n(3000, 200_000);
    ctx.section("random", n, |c| {
        let (u, i) = (c.rng.edgy_u128(), c.rng.edgy_i128());
        c.input(format!("{u} {i}"));
        de_all(&Primitive::U128(u))?;
        de_all(&Primitive::I128(i))?;
        // not numbers
        for p in [Primitive::Bool(u & 1 == 1), Primitive::Char(c.rng.char()), Primitive::String(u.to_string())] {
            de_all(&p)?;
        }
        Ok(())
    });
    let n = ctx.n(6000, 300_000);
    ctx.section("offers", n, |c| {
        let (u, i) = (c.rng.edgy_u128(), c.rng.edgy_i128());
        c.input(format!("{u} {i}"));
        let recs = [Rec::U8(u as u8), Rec::U16(u as u16), Rec::U32(u as u32), Rec::U64(u as u64), Rec::U128(u), Rec::I8(i as i8), Rec::I16(i as i16), Rec::I32(i as i32), Rec::I64(i as i64), Rec::I128(i)];
        for r in recs {
            let want = match &r {
                Rec::U8(n) => Primitive::U128(*n as u128),
                Rec::U16(n) => Primitive::U128(*n as u128),
                Rec::U32(n) => Primitive::U128(*n as u128),
                Rec::U64(n) => Primitive::U128(*n as u128),
                Rec::U128(n) => Primitive::U128(*n),
                Rec::I8(n) => Primitive::I128(*n as i128),
                Rec::I16(n) => Primitive::I128(*n as i128),
                Rec::I32(n) => Primitive::I128(*n as i128),
                Rec::I64(n) => Primitive::I128(*n as i128),
                Rec::I128(n) => Primitive::I128(*n),
                _ => unreachable!(),
            };
            let got = Value::deserialize(r.clone()).map_err(|e| e.to_string())?;
            check(got == Value { value: ValueDef::Primitive(want.clone()), context: () }, || format!("{r:?} offered, value {got:?}"))?;
            let got = ValueDef::deserialize(r.clone()).map_err(|e| e.to_string())?;
            check(got == ValueDef::Primitive(want.clone()), || format!("{r:?} offered, inner value {got:?}"))?;
            let got = Primitive::deserialize(r.clone()).map_err(|e| e.to_string())?;
            check(got == want, || format!("{r:?} offered, primitive {got:?}"))?;
        }
        Ok(())
    });
}

/// Rust data with its documented value.
trait Shape: Sized {
    fn gen(r: &mut Rng, d: usize) -> Self;
    fn val(&self) -> Value<()>;
}
fn un(xs: Vec<Value<()>>) -> Value<()> {
    Value { value: ValueDef::Composite(Composite::Unnamed(xs)), context: () }
}
fn nm(xs: Vec<(&str, Value<()>)>) -> Value<()> {
    Value { value: ValueDef::Composite(Composite::Named(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())), context: () }
}
fn va(name: &str, c: Value<()>) -> Value<()> {
    let ValueDef::Composite(values) = c.value else { unreachable!() };
    Value { value: ValueDef::Variant(Variant { name: name.to_string(), values }), context: () }
}
fn pr(p: Primitive) -> Value<()> {
    Value { value: ValueDef::Primitive(p), context: () }
}
macro_rules! ints {
    ($($t:ty, $g:ident, $v:ident as $w:ty);*) => {$(impl Shape for $t {
        fn gen(r: &mut Rng, _: usize) -> Self { r.$g() as $t }
        fn val(&self) -> Value<()> { pr(Primitive::$v(*self as $w)) }
    })*};
}
ints!(u8, edgy_u128, U128 as u128; u16, edgy_u128, U128 as u128; u32, edgy_u128, U128 as u128; u64, edgy_u128, U128 as u128; u128, edgy_u128, U128 as u128;
    i8, edgy_i128, I128 as i128; i16, edgy_i128, I128 as i128; i32, edgy_i128, I128 as i128; i64, edgy_i128, I128 as i128; i128, edgy_i128, I128 as i128);
impl Shape for bool {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.bool()
    }
    fn val(&self) -> Value<()> {
        pr(Primitive::Bool(*self))
    }
}
impl Shape for char {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.char()
    }
    fn val(&self) -> Value<()> {
        pr(Primitive::Char(*self))
    }
}
impl Shape for String {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.string(6)
    }
    fn val(&self) -> Value<()> {
        pr(Primitive::String(self.clone()))
    }
}
impl Shape for () {
    fn gen(_: &mut Rng, _: usize) {}
    fn val(&self) -> Value<()> {
        un(vec![])
    }
}
impl<T: Shape> Shape for Option<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() { Some(T::gen(r, d)) } else { None }
    }
    fn val(&self) -> Value<()> {
        match self {
            Some(x) => va("Some", un(vec![x.val()])),
            None => va("None", un(vec![])),
        }
    }
}
impl<T: Shape> Shape for Vec<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 0 } else { r.size(4, 300) };
        (0..n).map(|_| T::gen(r, d.saturating_sub(1))).collect()
    }
    fn val(&self) -> Value<()> {
        un(self.iter().map(|x| x.val()).collect())
    }
}
impl<T: Shape> Shape for Box<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Box::new(T::gen(r, d))
    }
    fn val(&self) -> Value<()> {
        (**self).val()
    }
}
impl<T: Shape> Shape for BTreeMap<String, T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 0 } else { r.size(4, 300) };
        (0..n).map(|_| (gen_name(r), T::gen(r, d.saturating_sub(1)))).collect()
    }
    fn val(&self) -> Value<()> {
        nm(self.iter().map(|(k, x)| (k.as_str(), x.val())).collect())
    }
}
impl<T: Shape> Shape for BTreeMap<char, T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        let n = if d == 0 { 0 } else { r.size(4, 300) };
        (0..n).map(|_| (r.char(), T::gen(r, d.saturating_sub(1)))).collect()
    }
    fn val(&self) -> Value<()> {
        Value { value: ValueDef::Composite(Composite::Named(self.iter().map(|(k, x)| (k.to_string(), x.val())).collect())), context: () }
    }
}
impl<T: Shape, const N: usize> Shape for [T; N]
where
    T: Debug,
{
    fn gen(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::gen(r, d.saturating_sub(1)))
    }
    fn val(&self) -> Value<()> {
        un(self.iter().map(|x| x.val()).collect())
    }
}
macro_rules! tup {
    ($($n:ident $i:tt),*) => {impl<$($n: Shape),*> Shape for ($($n,)*) {
        fn gen(r: &mut Rng, d: usize) -> Self { ($($n::gen(r, d.saturating_sub(1)),)*) }
        fn val(&self) -> Value<()> { un(vec![$(self.$i.val()),*]) }
    }};
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
macro_rules! shapes {
    ($(struct $s:ident { $($f:ident: $t:ty),* })* $(tuple $ts:ident($($tt:ty = $ti:tt),*);)* ) => {
        $(#[derive(::serde::Serialize, ::serde::Deserialize, Debug, PartialEq, Clone)] struct $s { $($f: $t),* }
        impl Shape for $s {
            fn gen(r: &mut Rng, d: usize) -> Self { let _ = (&r, &d); $s { $($f: Shape::gen(r, d.saturating_sub(1))),* } }
            fn val(&self) -> Value<()> { nm(vec![$((stringify!($f), self.$f.val())),*]) }
        })*
        $(#[derive(::serde::Serialize, ::serde::Deserialize, Debug, PartialEq, Clone)] struct $ts($($tt),*);
        impl Shape for $ts {
            fn gen(r: &mut Rng, d: usize) -> Self { $ts($(<$tt as Shape>::gen(r, d.saturating_sub(1))),*) }
            fn val(&self) -> Value<()> { un(vec![$(self.$ti.val()),*]) }
        })*
    };
}
shapes! {
    struct S0 { }
    struct S1 { a: u8 }
    struct S2 { name: String, values: Vec<u16>, b: Option<i64> }
    struct S3 { x: i128, y: u128, z: char, inner: S2, t: (bool, u32), m: BTreeMap<String, i8> }
    struct S4 { e: Vec<En>, o: Option<En>, u: (), us: Unit, ts: T2, arr: [u16; 3] }
    tuple T2(u8 = 0, String = 1);
    tuple T3(S1 = 0, Option<T2> = 1, i32 = 2);
}
#[derive(::serde::Serialize, ::serde::Deserialize, Debug, PartialEq, Clone)]
struct Unit;
impl Shape for Unit {
    fn gen(_: &mut Rng, _: usize) -> Self {
        Unit
    }
    fn val(&self) -> Value<()> {
        un(vec![])
    }
}
#[derive(::serde::Serialize, ::serde::Deserialize, Debug, PartialEq, Clone)]
enum En {
    U,
    None,
    T(u8, String),
    #[serde(rename = "true")]
    T3(Option<i16>, (), bool),
    S { a: i8, name: Vec<u8> },
    E {},
    Deep { e: Box<S4> },
}
impl Shape for En {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(if d < 2 { 6 } else { 7 }) {
            0 => En::U,
            1 => En::None,
            2 => En::T(Shape::gen(r, d), Shape::gen(r, d)),
            3 => En::T3(Shape::gen(r, d), (), r.bool()),
            4 => En::S { a: Shape::gen(r, d), name: Shape::gen(r, d) },
            5 => En::E {},
            _ => En::Deep { e: Shape::gen(r, d - 2) },
        }
    }
    fn val(&self) -> Value<()> {
        match self {
            En::U => va("U", un(vec![])),
            En::None => va("None", un(vec![])),
            En::T(a, b) => va("T", un(vec![a.val(), b.val()])),
            En::T3(a, b, c) => va("true", un(vec![a.val(), b.val(), c.val()])),
            En::S { a, name } => va("S", nm(vec![("a", a.val()), ("name", name.val())])),
            En::E {} => va("E", nm(vec![])),
            En::Deep { e } => va("Deep", nm(vec![("e", e.val())])),
        }
    }
}
// newtypes
#[derive(::serde::Serialize, ::serde::Deserialize, Debug, PartialEq, Clone)]
struct Nt<T>(T);
impl<T: Shape> Shape for Nt<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Nt(T::gen(r, d))
    }
    fn val(&self) -> Value<()> {
        un(vec![self.0.val()])
    }
}
#[derive(::serde::Serialize, ::serde::Deserialize, Debug, PartialEq, Clone)]
enum En1<T> {
    A(T),
}
impl<T: Shape> Shape for En1<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        En1::A(T::gen(r, d))
    }
    fn val(&self) -> Value<()> {
        va("A", un(vec![self.zero_val()]))
    }
}
impl<T: Shape> En1<T> {
    fn zero_val(&self) -> Value<()> {
        let En1::A(x) = self;
        x.val()
    }
}
#[derive(Debug, Clone)]
struct Raw(Vec<u8>);
impl Serialize for Raw {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl Shape for Raw {
    fn gen(r: &mut Rng, _: usize) -> Self {
        let n = r.size(9, 3000);
        Raw(r.bytes(n))
    }
    fn val(&self) -> Value<()> {
        self.0.val()
    }
}
/// A map with any kind of key, written entry by entry.
struct AnyMap(Vec<(Rec, Rec)>, bool);
impl Serialize for AnyMap {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::SerializeMap;
        let mut m = s.serialize_map(if self.1 { Some(self.0.len()) } else { None })?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
impl Serialize for Rec {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq};
        match self {
            Rec::Bool(x) => s.serialize_bool(*x),
            Rec::I8(x) => s.serialize_i8(*x),
            Rec::I16(x) => s.serialize_i16(*x),
            Rec::I32(x) => s.serialize_i32(*x),
            Rec::I64(x) => s.serialize_i64(*x),
            Rec::I128(x) => s.serialize_i128(*x),
            Rec::U8(x) => s.serialize_u8(*x),
            Rec::U16(x) => s.serialize_u16(*x),
            Rec::U32(x) => s.serialize_u32(*x),
            Rec::U64(x) => s.serialize_u64(*x),
            Rec::U128(x) => s.serialize_u128(*x),
            Rec::F64(x) => s.serialize_f64(*x),
            Rec::Char(x) => s.serialize_char(*x),
            Rec::Str(x) => s.serialize_str(x),
            Rec::Bytes(x) => s.serialize_bytes(x),
            Rec::Unit => s.serialize_unit(),
            Rec::None => s.serialize_none(),
            Rec::Some(x) => s.serialize_some(&**x),
            Rec::Newtype(x) => s.serialize_newtype_struct("N", &**x),
            Rec::Seq(n, xs) => {
                let mut q = s.serialize_seq(*n)?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Rec::Map(n, xs) => {
                let mut q = s.serialize_map(*n)?;
                for (k, x) in xs {
                    q.serialize_key(k)?;
                    q.serialize_value(x)?;
                }
                q.end()
            }
            Rec::Other => s.serialize_unit(),
        }
    }
}
fn gen_rec(r: &mut Rng, d: usize, floats: bool) -> Rec {
    match r.below(if d == 0 { 17 } else { 22 }) {
        0 => Rec::Bool(r.bool()),
        1 => Rec::I8(r.edgy_i128() as i8),
        2 => Rec::I16(r.edgy_i128() as i16),
        3 => Rec::I32(r.edgy_i128() as i32),
        4 => Rec::I64(r.edgy_i128() as i64),
        5 => Rec::I128(r.edgy_i128()),
        6 => Rec::U8(r.edgy_u128() as u8),
        7 => Rec::U16(r.edgy_u128() as u16),
        8 => Rec::U32(r.edgy_u128() as u32),
        9 => Rec::U64(r.edgy_u128() as u64),
        10 => Rec::U128(r.edgy_u128()),
        11 if floats => Rec::F64(r.u64() as f64),
        12 => Rec::Char(r.char()),
        13 => {
            let n = r.size(5, 300);
            Rec::Bytes(r.bytes(n))
        }
        14 => Rec::Unit,
        15 => Rec::None,
        17 => Rec::Some(Box::new(gen_rec(r, d - 1, floats))),
        18 => Rec::Newtype(Box::new(gen_rec(r, d - 1, floats))),
        19 | 20 => {
            let n = r.size(4, 300);
            let xs: Vec<Rec> = (0..n).map(|_| gen_rec(r, d - 1, floats)).collect();
            Rec::Seq(if r.bool() { Some(n) } else { None }, xs)
        }
        21 => {
            let n = r.size(4, 300);
            let xs: Vec<(Rec, Rec)> = (0..n)
                .map(|_| {
                    let k = match r.below(if floats { 6 } else { 3 }) {
                        0 | 1 => Rec::Str(gen_name(r)),
                        2 => Rec::Char(r.char()),
                        3 => gen_rec(r, 0, floats),
                        _ => Rec::Str("k".into()),
                    };
                    (k, gen_rec(r, d - 1, floats))
                })
                .collect();
            Rec::Map(if r.bool() { Some(n) } else { None }, xs)
        }
        _ => Rec::Str(r.string(5)),
    }
}
fn rec_value(r: &Rec) -> Option<Value<()>> {
    Some(match r {
        Rec::Bool(x) => pr(Primitive::Bool(*x)),
        Rec::I8(x) => pr(Primitive::I128(*x as i128)),
        Rec::I16(x) => pr(Primitive::I128(*x as i128)),
        Rec::I32(x) => pr(Primitive::I128(*x as i128)),
        Rec::I64(x) => pr(Primitive::I128(*x as i128)),
        Rec::I128(x) => pr(Primitive::I128(*x)),
        Rec::U8(x) => pr(Primitive::U128(*x as u128)),
        Rec::U16(x) => pr(Primitive::U128(*x as u128)),
        Rec::U32(x) => pr(Primitive::U128(*x as u128)),
        Rec::U64(x) => pr(Primitive::U128(*x as u128)),
        Rec::U128(x) => pr(Primitive::U128(*x)),
        Rec::F64(_) => return None,
        Rec::Char(x) => pr(Primitive::Char(*x)),
        Rec::Str(x) => pr(Primitive::String(x.clone())),
        Rec::Bytes(x) => un(x.iter().map(|b| pr(Primitive::U128(*b as u128))).collect()),
        Rec::Unit | Rec::Other => un(vec![]),
        Rec::None => va("None", un(vec![])),
        Rec::Some(x) => va("Some", un(vec![rec_value(x)?])),
        Rec::Newtype(x) => un(vec![rec_value(x)?]),
        Rec::Seq(_, xs) => un(xs.iter().map(rec_value).collect::<Option<_>>()?),
        Rec::Map(_, xs) => {
            let mut out = vec![];
            for (k, x) in xs {
                let k = match k {
                    Rec::Str(s) => s.clone(),
                    Rec::Char(c) => c.to_string(),
                    _ => return None,
                };
                out.push((k, rec_value(x)?));
            }
            Value { value: ValueDef::Composite(Composite::Named(out)), context: () }
        }
    })
}
fn to_one<T: Shape + Serialize + Debug>(ctx: &mut Ctx, name: &str) {
    let n = ctx.n(250, 12_000);
    ctx.section(&format!("to {name}"), n, |c| {
        let d = c.rng.below(5);
        let x = T::gen(&mut c.rng, d);
        c.input(format!("{x:?}"));
        let got = no_panic("to_value", || sv::to_value(&x))?.map_err(|e| format!("failed: {e}"))?;
        let want = x.val();
        check(got == want, || format!("became {got:?}, expected {want:?}"))
    });
}
macro_rules! each {
    ($f:ident $ctx:ident $($t:ty),* $(,)?) => {$($f::<$t>($ctx, stringify!($t));)*};
}
pub fn d03(ctx: &mut Ctx) {
    ctx.rule("bounded: random instances of 40 Rust types covering every serde data kind, and random serde event trees with floats and non-string keys; distinct = distinct instance");
    each!(to_one ctx u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, String, (), Unit, Raw, Option<u8>, Option<Option<String>>, Vec<i32>, Vec<Vec<bool>>, [u16; 3], [(); 0], (u8,), (i8, String), (bool, char, u64), BTreeMap<String, i64>, BTreeMap<char, Vec<u8>>, S0, S1, S2, S3, S4, T2, T3, En, Vec<En>, Nt<u8>, Nt<Vec<u8>>, Nt<Nt<S1>>, En1<u8>, En1<(u8, u8)>, Box<S3>);
    let n = ctx.n(6000, 300_000);
    ctx.section("events", n, |c| {
        let fl = c.rng.chance(1, 4);
        let d = c.rng.below(4);
        let r = gen_rec(&mut c.rng, d, fl);
        c.input(format!("{r:?}"));
        let got = no_panic("to_value", || sv::to_value(&r))?;
        match (got, rec_value(&r)) {
            (Ok(a), Some(b)) => check(a == b, || format!("became {a:?}, expected {b:?}")),
            (Err(_), None) => Ok(()),
            (a, b) => Err(format!("became {a:?}, expected {b:?}")),
        }
    });
    ctx.section("errors", 20, |c| {
        let v = Rec::U8(1);
        let bad: Vec<(Rec, Rec)> = vec![match c.idx {
            0 => (Rec::U8(1), v),
            1 => (Rec::Bool(true), v),
            2 => (Rec::Unit, v),
            3 => (Rec::None, v),
            4 => (Rec::Seq(None, vec![]), v),
            5 => (Rec::Bytes(vec![1]), v),
            6 => (Rec::Some(Box::new(Rec::Str("a".into()))), v),
            7 => (Rec::Newtype(Box::new(Rec::Str("a".into()))), v),
            8 => (Rec::Str("a".into()), Rec::F64(1.0)),
            9 => (Rec::F64(1.0), v),
            _ => (Rec::I128(-1), v),
        }];
        let m = AnyMap(bad, c.idx % 2 == 0);
        c.input(format!("{:?}", m.0));
        let got = sv::to_value(&m);
        check(got.is_err(), || format!("became {got:?}, expected an error"))?;
        check(sv::to_value(1.5f32).is_err() && sv::to_value(0.0f64).is_err() && sv::to_value(Some(f64::NAN)).is_err() && sv::to_value(vec![1.0f32]).is_err(), || "a float became a value".into())
    });
}

/// The same value with named composites in another order.
fn shuffle(v: &Value<()>, r: &mut Rng) -> Value<()> {
    let sc = |c: &Composite<()>, r: &mut Rng| match c {
        Composite::Named(xs) => {
            let mut ys: Vec<_> = xs.iter().map(|(k, x)| (k.clone(), shuffle(x, r))).collect();
            for i in (1..ys.len()).rev() {
                let j = r.below(i + 1);
                ys.swap(i, j);
            }
            Composite::Named(ys)
        }
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(|x| shuffle(x, r)).collect()),
    };
    let value = match &v.value {
        ValueDef::Composite(c) => ValueDef::Composite(sc(c, r)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: sc(&x.values, r) }),
        x => x.clone(),
    };
    Value { value, context: () }
}
fn rt<T: Shape + Serialize + DeserializeOwned + Debug + PartialEq>(ctx: &mut Ctx, name: &str) {
    let n = ctx.n(250, 12_000);
    ctx.section(&format!("round trip {name}"), n, |c| {
        let d = c.rng.below(5);
        let x = T::gen(&mut c.rng, d);
        c.input(format!("{x:?}"));
        let v = no_panic("to_value", || sv::to_value(&x))?.map_err(|e| format!("to_value failed: {e}"))?;
        let back = no_panic("from_value", || sv::from_value::<(), T>(v.clone()))?.map_err(|e| format!("from_value of {v:?} failed: {e}"))?;
        check(back == x, || format!("came back as {back:?} from {v:?}"))?;
        // through the documented shape, with fields in any order and contexts
        let v = shuffle(&x.val(), &mut c.rng);
        let v7 = gen::map(&v, &mut |_| 7u32);
        let back = no_panic("from_value", || sv::from_value::<u32, T>(v7.clone()))?.map_err(|e| format!("from_value of {v:?} failed: {e}"))?;
        check(back == x, || format!("came back as {back:?} from {v:?}"))
    });
}
fn newtype_known<T: Shape + Serialize + DeserializeOwned + Debug + PartialEq>(ctx: &mut Ctx, name: &str) {
    // Known finding: newtypes do not come back. It must at least be an error, never a different instance.
    let mut broken = None;
    ctx.section(&format!("newtype {name}"), 40, |c| {
        let x = T::gen(&mut c.rng, 3);
        c.input(format!("{x:?}"));
        let v = no_panic("to_value", || sv::to_value(&x))?.map_err(|e| format!("to_value failed: {e}"))?;
        check(v == x.val(), || format!("became {v:?}"))?;
        match no_panic("from_value", || sv::from_value::<(), T>(v.clone()))? {
            Ok(y) => check(y == x, || format!("came back as {y:?} from {v:?}")),
            Err(e) => {
                broken = Some(format!("{x:?}: {e}"));
                Ok(())
            }
        }
    });
    if let (Some(b), None) = (broken, &ctx.only) {
        ctx.known.push(("D04-newtype".into(), format!("{name} does not come back from a value, e.g. {b}")));
    }
}
pub fn d04(ctx: &mut Ctx) {
    ctx.rule("bounded: random instances of 36 Rust types to value and back, also with named fields in shuffled order and with contexts; distinct = distinct instance");
    each!(rt ctx u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, String, (), Unit, Option<u8>, Option<Vec<S1>>, Vec<i32>, Vec<Vec<bool>>, Vec<Option<i128>>, [u16; 3], [(); 0], (u8,), (i8, String), (bool, char, u64), (S1, Vec<En>), BTreeMap<String, i64>, BTreeMap<String, S2>, S0, S1, S2, S3, S4, T2, T3, En, Vec<En>, Box<S3>);
    each!(newtype_known ctx Nt<u8>, Nt<Vec<u8>>, Nt<(u8, u8)>, Nt<S1>, Nt<String>, Nt<Option<u8>>, En1<u8>, En1<(u8, u8)>, En1<Vec<u8>>);
}

const BV: &str = "__bitvec__values__";
fn has_marker(v: &Value<()>) -> bool {
    let hc = |c: &Composite<()>| match c {
        Composite::Named(xs) => xs.first().is_some_and(|(k, _)| k == BV) || xs.iter().any(|(_, x)| has_marker(x)),
        Composite::Unnamed(xs) => xs.iter().any(has_marker),
    };
    match &v.value {
        ValueDef::Composite(c) => hc(c),
        ValueDef::Variant(x) => hc(&x.values),
        _ => false,
    }
}
#[derive(::serde::Deserialize, Debug, PartialEq)]
struct Partial {
    id: u32,
    rest: Value<()>,
    list: Vec<Value<()>>,
    #[serde(default)]
    opt: Option<Value<()>>,
}
pub fn d05(ctx: &mut Ctx) {
    ctx.rule("bounded: random values without 256-bit integers, to depth 6, as source for a value, an inner value, its own part, and as a captured struct field; distinct = distinct value");
    let n = ctx.n(10000, 500_000);
    ctx.section("value to value", n, |c| {
        let d = c.rng.below(7);
        let mut k = 0;
        let v7 = gen::gen_value(&mut c.rng, d, false, &mut k);
        let v = gen::strip(&v7);
        c.input(format!("{v:?}"));
        if has_marker(&v) {
            return Ok(());
        }
        let got = no_panic("deserialize", || Value::deserialize(v7.clone()))?.map_err(|e| format!("failed: {e}"))?;
        check(got == v, || format!("came back as {got:?}"))?;
        let got = no_panic("deserialize", || sv::from_value::<u32, Value<()>>(v7.clone()))?.map_err(|e| format!("failed: {e}"))?;
        check(got == v, || format!("from_value gave {got:?}"))?;
        let got = ValueDef::deserialize(v7.value.clone()).map_err(|e| format!("inner value failed: {e}"))?;
        check(got == v.value, || format!("inner value came back as {got:?}"))?;
        match (&v7.value, &v.value) {
            (ValueDef::Composite(a), ValueDef::Composite(b)) => {
                let got = Composite::deserialize(a.clone()).map_err(|e| format!("composite failed: {e}"))?;
                check(got == *b, || format!("composite came back as {got:?}"))
            }
            (ValueDef::Variant(a), ValueDef::Variant(b)) => {
                let got = Variant::deserialize(a.clone()).map_err(|e| format!("variant failed: {e}"))?;
                check(got == *b, || format!("variant came back as {got:?}"))
            }
            (ValueDef::Primitive(a), ValueDef::Primitive(b)) => {
                let got = Primitive::deserialize(a.clone()).map_err(|e| format!("primitive failed: {e}"))?;
                check(got == *b, || format!("primitive came back as {got:?}"))
            }
            _ => Ok(()),
        }
    });
    ctx.section("bits", 300, |c| {
        let bits: Vec<bool> = (0..c.idx).map(|_| c.rng.bool()).collect();
        let v = Value { value: ValueDef::BitSequence(bitseq(&bits)), context: () };
        c.input(format!("{bits:?}"));
        let got = Value::deserialize(v.clone()).map_err(|e| format!("failed: {e}"))?;
        check(got == v, || format!("came back as {got:?}"))
    });
    let n = ctx.n(3000, 150_000);
    ctx.section("partial", n, |c| {
        let rest = gen::plain(&mut c.rng, 3, false);
        let k = c.rng.below(4);
        let list: Vec<Value<()>> = (0..k).map(|_| gen::plain(&mut c.rng, 2, false)).collect();
        if has_marker(&rest) || list.iter().any(has_marker) {
            return Ok(());
        }
        let id = c.rng.u64() as u32;
        let mut fields = vec![("id".to_string(), pr(Primitive::U128(id as u128))), ("rest".to_string(), rest.clone()), ("list".to_string(), un(list.clone()))];
        let opt = if c.rng.bool() {
            let x = gen::plain(&mut c.rng, 2, false);
            if has_marker(&x) {
                return Ok(());
            }
            fields.push(("opt".to_string(), va("Some", un(vec![x.clone()]))));
            Some(x)
        } else {
            None
        };
        let j = c.rng.below(fields.len());
        fields.swap(0, j);
        let v = Value { value: ValueDef::Composite(Composite::Named(fields)), context: () };
        c.input(format!("{v:?}"));
        let got = no_panic("from_value", || sv::from_value::<(), Partial>(v.clone()))?.map_err(|e| format!("failed: {e}"))?;
        let want = Partial { id, rest, list, opt };
        check(got == want, || format!("captured {got:?}"))
    });
    ctx.known("D05-marker", "a named composite whose first name is __bitvec__values__ is not kept when a value is deserialized into a value", || {
        let v = nm(vec![(BV, pr(Primitive::U128(1)))]);
        Value::deserialize(v.clone()).ok() != Some(v)
    });
}

pub fn d06(ctx: &mut Ctx) {
    ctx.rule("bounded: random variants with named or unnamed plain values, serialized and read back; every order, omission, repetition and addition of entries; distinct = distinct variant");
    let n = ctx.n(8000, 400_000);
    ctx.section("variant", n, |c| {
        // inside, variants and bit sequences come back as maps, so the values are primitives and composites
        fn plainish(r: &mut Rng, d: usize) -> Value<()> {
            match r.below(if d == 0 { 4 } else { 6 }) {
                0..=3 => loop {
                    let p = gen::gen_prim(r, false);
                    return pr(p);
                },
                4 => {
                    let n = r.size(4, 300);
                    un((0..n).map(|_| plainish(r, d - 1)).collect())
                }
                _ => {
                    let n = r.size(4, 300);
                    Value { value: ValueDef::Composite(Composite::Named((0..n).map(|_| (gen_name(r), plainish(r, d - 1))).collect())), context: () }
                }
            }
        }
        let n = c.rng.size(4, 300);
        let name = match c.rng.below(4) { 0 => "name".to_string(), 1 => "values".to_string(), _ => gen_name(&mut c.rng) };
        let values = if c.rng.bool() {
            Composite::Named((0..n).map(|_| (gen_name(&mut c.rng), plainish(&mut c.rng, 2))).collect())
        } else {
            Composite::Unnamed((0..n).map(|_| plainish(&mut c.rng, 2)).collect())
        };
        let v = Variant { name, values };
        c.input(format!("{v:?}"));
        let r = v.serialize(Ser).map_err(|e| format!("serializing failed: {e}"))?;
        let Rec::Map(Some(2), entries) = r.clone() else { return Err(format!("serialized as {r:?}")) };
        check(entries.len() == 2 && entries[0].0 == Rec::Str("name".into()) && entries[1].0 == Rec::Str("values".into()), || format!("serialized as {r:?}"))?;
        let back = |entries: Vec<(Rec, Rec)>| no_panic("deserialize", || Variant::deserialize(Rec::Map(None, entries)));
        let got = back(entries.clone())?.map_err(|e| format!("reading back failed: {e}"))?;
        check(got == v, || format!("read back as {got:?}"))?;
        let mut rev = entries.clone();
        rev.reverse();
        let got = back(rev)?.map_err(|e| format!("reading back in the other order failed: {e}"))?;
        check(got == v, || format!("read back in the other order as {got:?}"))?;
        for i in 0..2 {
            let got = back(vec![entries[i].clone()])?;
            check(got.is_err(), || format!("only {:?} was accepted as {got:?}", entries[i].0))?;
            for at in 0..3 {
                let mut e = entries.clone();
                let key = c.rng.pick(&["other", "Name", "value", "names", "", "nam"]).to_string();
                e.insert(at, (Rec::Str(key), entries[i].1.clone()));
                let got = back(e)?;
                check(got.is_err(), || format!("an extra entry was accepted as {got:?}"))?;
            }
            let mut e = entries.clone();
            e[i].0 = Rec::Str("other".into());
            let got = back(e)?;
            check(got.is_err(), || format!("a renamed entry was accepted as {got:?}"))?;
        }
        let got = back(vec![])?;
        check(got.is_err(), || format!("an empty map was accepted as {got:?}"))?;
        // wrong kinds of content
        let got = back(vec![(Rec::Str("name".into()), Rec::U8(1)), entries[1].clone()])?;
        check(got.is_err(), || format!("a number was accepted as the name: {got:?}"))?;
        let got = back(vec![entries[0].clone(), (Rec::Str("values".into()), Rec::U8(1))])?;
        check(got.is_err(), || format!("a number was accepted as the values: {got:?}"))
    });
}

#[derive(Debug, PartialEq)]
struct Buf(Vec<u8>);
struct BufV;
impl<'de> de::Visitor<'de> for BufV {
    type Value = Buf;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<X: de::Error>(self, v: &[u8]) -> Result<Buf, X> {
        Ok(Buf(v.to_vec()))
    }
    fn visit_byte_buf<X: de::Error>(self, v: Vec<u8>) -> Result<Buf, X> {
        Ok(Buf(v))
    }
}
impl<'de> Deserialize<'de> for Buf {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_byte_buf(BufV)
    }
}
#[derive(Debug, PartialEq)]
struct Buf2(Vec<u8>);
impl<'de> Deserialize<'de> for Buf2 {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_bytes(BufV).map(|b| Buf2(b.0))
    }
}
fn tuple_case<T: DeserializeOwned + Debug>(v: &Value<u32>, len: usize, want: usize, what: &str, show: impl Fn(&T) -> Vec<u128>, items: &[u128]) -> Result<(), String> {
    let got = no_panic("from_value", || sv::from_value::<u32, T>(v.clone()))?;
    match got {
        Ok(x) => {
            check(len == want, || format!("{len} items were accepted as {what}: {x:?}"))?;
            let s = show(&x);
            check(s == items, || format!("read as {what}: {s:?}, expected {items:?}"))
        }
        Err(e) => check(len != want, || format!("{len} items were rejected as {what}: {e}")),
    }
}
#[derive(::serde::Deserialize, Debug)]
struct Ts3(u128, u128, u128);
pub fn d07(ctx: &mut Ctx) {
    ctx.rule("bounded: named and unnamed lists (and variants) of 0 to 6 items, with bytes, 256, signed, non-number items, read as bytes, tuples of every size, tuple structs, unit, lists and options; distinct = distinct value");
    let n = ctx.n(8000, 400_000);
    ctx.section("lists", n, |c| {
        let k = c.rng.size(7, 70000);
        let items: Vec<u128> = (0..k).map(|_| if c.rng.chance(1, 12) { *c.rng.pick(&[256, 257, 511, 65535, 65536, 1 << 32, 1 << 64, u128::MAX, u128::MAX - 255]) } else { c.rng.below(256) as u128 }).collect();
        let mut vals: Vec<Value<u32>> = items.iter().map(|n| Value { value: ValueDef::Primitive(Primitive::U128(*n)), context: 1 }).collect();
        let mut bytes_ok = items.iter().all(|n| *n <= 255);
        let mut all_nums = true;
        if k > 0 && c.rng.chance(1, 4) {
            let i = c.rng.below(k);
            vals[i].value = match c.rng.below(4) {
                0 => ValueDef::Primitive(Primitive::I128(items[i] as i128 & 0x7f)),
                1 => ValueDef::Primitive(Primitive::Bool(true)),
                2 => ValueDef::Primitive(Primitive::Char('a')),
                _ => ValueDef::Composite(Composite::Unnamed(vec![])),
            };
            bytes_ok = false;
            all_nums = false;
        }
        let comp = if c.rng.bool() {
            Composite::Unnamed(vals)
        } else {
            Composite::Named(vals.into_iter().map(|v| (gen_name(&mut c.rng), v)).collect())
        };
        c.input(format!("{comp:?}"));
        let v = Value { value: ValueDef::Composite(comp.clone()), context: 0u32 };
        for (what, got) in [
            ("byte_buf", no_panic("from_value", || sv::from_value::<u32, Buf>(v.clone()))?.map(|b| b.0).map_err(|e| e.to_string())),
            ("bytes", no_panic("from_value", || sv::from_value::<u32, Buf2>(v.clone()))?.map(|b| b.0).map_err(|e| e.to_string())),
            ("composite byte_buf", Buf::deserialize(comp.clone()).map(|b| b.0).map_err(|e| e.to_string())),
        ] {
            match got {
                Ok(b) => {
                    check(bytes_ok, || format!("accepted as {what}: {b:?}"))?;
                    let want: Vec<u8> = items.iter().map(|n| *n as u8).collect();
                    check(b == want, || format!("read as {what}: {b:?}, expected {want:?}"))?;
                }
                Err(e) => check(!bytes_ok, || format!("rejected as {what}: {e}"))?,
            }
        }
        if all_nums {
            let var = Value { value: ValueDef::Variant(Variant { name: "X".into(), values: comp.clone() }), context: 0u32 };
            for v in [&v, &var] {
                tuple_case::<(u128,)>(v, k, 1, "a 1-tuple", |x| vec![x.0], &items)?;
                tuple_case::<(u128, u128)>(v, k, 2, "a 2-tuple", |x| vec![x.0, x.1], &items)?;
                tuple_case::<(u128, u128, u128)>(v, k, 3, "a 3-tuple", |x| vec![x.0, x.1, x.2], &items)?;
                tuple_case::<[u128; 4]>(v, k, 4, "an array of 4", |x| x.to_vec(), &items)?;
                tuple_case::<Ts3>(v, k, 3, "a tuple struct of 3", |x| vec![x.0, x.1, x.2], &items)?;
                let got = no_panic("from_value", || sv::from_value::<u32, ()>(v.clone()))?;
                check(got.is_ok() == (k == 0), || format!("{k} items as unit: {got:?}"))?;
                let got = no_panic("from_value", || sv::from_value::<u32, Unit>(v.clone()))?;
                check(got.is_ok() == (k == 0), || format!("{k} items as unit struct: {got:?}"))?;
                let got = no_panic("from_value", || sv::from_value::<u32, Vec<u128>>(v.clone()))?;
                check(got.as_ref().ok() == Some(&items), || format!("read as a list: {got:?}, expected {items:?}"))?;
            }
        }
        Ok(())
    });
    let n = ctx.n(4000, 200_000);
    ctx.section("options", n, |c| {
        let name = c.rng.pick(&["Some", "None", "some", "Other", "Some ", ""]).to_string();
        let k = c.rng.below(3);
        let items: Vec<Value<u32>> = (0..k).map(|_| Value { value: ValueDef::Primitive(Primitive::U128(c.rng.edgy_u128())), context: 1 }).collect();
        let first = items.first().and_then(|v| v.as_u128());
        let named = c.rng.chance(1, 4);
        let values = if named { Composite::Named(items.into_iter().map(|v| ("a".to_string(), v)).collect()) } else { Composite::Unnamed(items) };
        let v = Value { value: ValueDef::Variant(Variant { name: name.clone(), values }), context: 0u32 };
        c.input(format!("{v:?}"));
        let got = no_panic("from_value", || sv::from_value::<u32, Option<u128>>(v.clone()))?.map_err(|e| e.to_string());
        let want = match (&*name, k, named) {
            ("Some", 1, false) => Some(Some(first.unwrap())),
            ("None", 0, false) => Some(None),
            _ => None,
        };
        match (&got, &want) {
            (Ok(a), Some(b)) => check(a == b, || format!("read as {a:?}, expected {b:?}")),
            (Err(_), None) => Ok(()),
            _ => Err(format!("read as option: {got:?}, expected {want:?}")),
        }
    });
}

/// Data offered by a source of no particular format: which visitor method is called when anything is asked for.
#[derive(Clone, Debug)]
enum Src {
    Prim(Rec, u8),
    F32,
    F64,
    Fails,
    Bytes(Vec<u8>, u8),
    Unit,
    None,
    Some(Box<Src>),
    Newtype(Box<Src>),
    Seq(Hint, Vec<Src>),
    Map(Hint, Vec<(Src, Src)>),
    Enum(Box<Src>, Box<Src>),
}
#[derive(Clone, Copy, Debug)]
enum Hint {
    No,
    Right,
    Wrong(usize),
}
fn hint(h: Hint, left: usize) -> Option<usize> {
    match h {
        Hint::No => None,
        Hint::Right => Some(left),
        Hint::Wrong(n) => Some(n),
    }
}
struct SrcSeq(Hint, std::vec::IntoIter<Src>);
impl<'de> de::SeqAccess<'de> for SrcSeq {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        self.1.next().map(|x| seed.deserialize(x)).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0, self.1.len())
    }
}
struct SrcMap(Hint, std::vec::IntoIter<(Src, Src)>, Option<Src>);
impl<'de> de::MapAccess<'de> for SrcMap {
    type Error = E;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        let Some((k, v)) = self.1.next() else { return Ok(None) };
        self.2 = Some(v);
        seed.deserialize(k).map(Some)
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self.2.take().ok_or(E("a value without a key was asked for".into()))?)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0, self.1.len())
    }
}
struct SrcEnum(Src, Src);
impl<'de> de::EnumAccess<'de> for SrcEnum {
    type Error = E;
    type Variant = Src;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Src), E> {
        Ok((seed.deserialize(self.0)?, self.1))
    }
}
impl<'de> de::VariantAccess<'de> for Src {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Err(E("unit variant asked for".into()))
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E("tuple variant asked for".into()))
    }
    fn struct_variant<V: de::Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E("struct variant asked for".into()))
    }
}
impl<'de> Deserializer<'de> for Src {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self {
            Src::Prim(p, how) => match p {
                Rec::Bool(x) => v.visit_bool(x),
                Rec::I8(x) => v.visit_i8(x),
                Rec::I16(x) => v.visit_i16(x),
                Rec::I32(x) => v.visit_i32(x),
                Rec::I64(x) => v.visit_i64(x),
                Rec::I128(x) => v.visit_i128(x),
                Rec::U8(x) => v.visit_u8(x),
                Rec::U16(x) => v.visit_u16(x),
                Rec::U32(x) => v.visit_u32(x),
                Rec::U64(x) => v.visit_u64(x),
                Rec::U128(x) => v.visit_u128(x),
                Rec::Char(x) => v.visit_char(x),
                Rec::Str(x) if how % 2 == 0 => v.visit_string(x),
                Rec::Str(x) => v.visit_str(&x),
                _ => unreachable!(),
            },
            Src::F32 => v.visit_f32(1.0),
            Src::F64 => v.visit_f64(2.0),
            Src::Fails => Err(E("the source fails".into())),
            Src::Bytes(b, how) if how % 2 == 0 => v.visit_byte_buf(b),
            Src::Bytes(b, _) => v.visit_bytes(&b),
            Src::Unit => v.visit_unit(),
            Src::None => v.visit_none(),
            Src::Some(x) => v.visit_some(*x),
            Src::Newtype(x) => v.visit_newtype_struct(*x),
            Src::Seq(h, xs) => v.visit_seq(SrcSeq(h, xs.into_iter())),
            Src::Map(h, xs) => v.visit_map(SrcMap(h, xs.into_iter(), None)),
            Src::Enum(n, x) => v.visit_enum(SrcEnum(*n, *x)),
        }
    }
    ::serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn src_text(s: &Src) -> Option<String> {
    match s {
        Src::Prim(Rec::Str(x), _) => Some(x.clone()),
        Src::Prim(Rec::Char(c), _) => Some(c.to_string()),
        _ => None,
    }
}
fn src_comp(s: &Src) -> Option<Composite<()>> {
    Some(match s {
        Src::Bytes(b, _) => Composite::Unnamed(b.iter().map(|x| pr(Primitive::U128(*x as u128))).collect()),
        Src::Unit => Composite::Unnamed(vec![]),
        Src::Newtype(x) => src_comp(x)?,
        Src::Seq(_, xs) => Composite::Unnamed(xs.iter().map(src_value).collect::<Option<_>>()?),
        Src::Map(_, xs) => Composite::Named(xs.iter().map(|(k, x)| Some((src_text(k)?, src_value(x)?))).collect::<Option<_>>()?),
        _ => return None,
    })
}
fn src_value(s: &Src) -> Option<Value<()>> {
    let comp = |c| Value { value: ValueDef::Composite(c), context: () };
    Some(match s {
        Src::Prim(p, _) => rec_value(p)?,
        Src::None => va("None", un(vec![])),
        Src::Some(x) => va("Some", un(vec![src_value(x)?])),
        Src::Newtype(x) => src_value(x)?,
        Src::Enum(n, x) => Value { value: ValueDef::Variant(Variant { name: src_text(n)?, values: src_comp(x)? }), context: () },
        Src::Map(_, xs) if xs.first().is_some_and(|(k, _)| src_text(k).as_deref() == Some(BV)) => match &xs[0].1 {
            Src::Seq(_, bs) => Value {
                value: ValueDef::BitSequence(bitseq(&bs.iter().map(|b| if let Src::Prim(Rec::Bool(b), _) = b { Some(*b) } else { None }).collect::<Option<Vec<bool>>>()?)),
                context: (),
            },
            _ => return None,
        },
        Src::Bytes(..) | Src::Unit | Src::Seq(..) | Src::Map(..) => comp(src_comp(s)?),
        Src::F32 | Src::F64 | Src::Fails => return None,
    })
}
fn gen_src(r: &mut Rng, d: usize, bad: bool) -> Src {
    if bad && r.chance(1, 12) {
        return match r.below(3) {
            0 => Src::F32,
            1 => Src::F64,
            _ => Src::Fails,
        };
    }
    let how = r.below(2) as u8;
    let hint = |r: &mut Rng| match r.below(4) {
        0 => Hint::No,
        1 => Hint::Wrong(*r.pick(&[0, 1, 3, 1024, 5000, 1 << 32, usize::MAX / 2, usize::MAX])),
        _ => Hint::Right,
    };
    match r.below(if d == 0 { 8 } else { 16 }) {
        0..=3 => loop {
            let p = gen_rec(r, 0, false);
            if !matches!(p, Rec::Unit | Rec::None | Rec::Bytes(_) | Rec::F64(_)) {
                return Src::Prim(p, how);
            }
        },
        4 => Src::Prim(Rec::Str(r.string(5)), how),
        5 => {
            let n = r.size(5, 3000);
            Src::Bytes(r.bytes(n), how)
        }
        6 => Src::Unit,
        7 => Src::None,
        8 => Src::Some(Box::new(gen_src(r, d - 1, bad))),
        9 => Src::Newtype(Box::new(gen_src(r, d - 1, bad))),
        10 | 11 => {
            let n = r.size(4, 3000);
            let h = hint(r);
            Src::Seq(h, (0..n).map(|_| gen_src(r, d - 1, bad)).collect())
        }
        12 | 13 => {
            let n = r.size(4, 3000);
            let h = hint(r);
            let mut xs: Vec<(Src, Src)> = (0..n).map(|_| (gen_key(r, bad), gen_src(r, d - 1, bad))).collect();
            if r.chance(1, 10) {
                let n = r.size(9, 200);
                xs.insert(0, (Src::Prim(Rec::Str(BV.into()), how), Src::Seq(Hint::Right, (0..n).map(|_| Src::Prim(Rec::Bool(r.bool()), 0)).collect())));
            }
            Src::Map(h, xs)
        }
        _ => Src::Enum(Box::new(gen_key(r, bad)), Box::new(gen_src(r, d - 1, bad))),
    }
}
fn gen_key(r: &mut Rng, bad: bool) -> Src {
    if bad && r.chance(1, 15) {
        return match r.below(4) {
            0 => Src::Prim(Rec::U8(1), 0),
            1 => Src::Prim(Rec::Bool(true), 0),
            2 => Src::Unit,
            _ => Src::Fails,
        };
    }
    match r.below(8) {
        0 => Src::Prim(Rec::Char(r.char()), 0),
        1 => Src::Prim(Rec::Str(r.pick(&["a", "name", "values", "Some", "None", ""]).to_string()), r.below(2) as u8),
        _ => Src::Prim(Rec::Str(gen_name(r)), r.below(2) as u8),
    }
}
pub fn d08(ctx: &mut Ctx) {
    ctx.rule("bounded: random data sources calling every visitor method, with floats, failures and keys that are not text in one of three, right, wrong and huge size hints, read as a value, an inner value, a composite, a variant and a primitive; distinct = distinct source");
    let n = ctx.n(60_000, 2_000_000);
    ctx.section("sources", n, |c| {
        let bad = c.rng.chance(1, 3);
        let d = c.rng.below(5);
        let s = gen_src(&mut c.rng, d, bad);
        c.input(format!("{s:?}"));
        crate::ctx::set_current_input(&c.input);
        let want = src_value(&s);
        let (got, big, _) = crate::alloc::measure(|| no_panic("deserialize", || Value::deserialize(s.clone())));
        let got = got?;
        check(big <= 600_000 + 400 * c.input.len(), || format!("a single allocation of {big} bytes"))?;
        match (&got, &want) {
            (Ok(a), Some(b)) => check(a == b, || format!("became {a:?}, expected {b:?}"))?,
            (Err(_), None) => {}
            (a, b) => return Err(format!("became {a:?}, expected {b:?}")),
        }
        let def = no_panic("deserialize", || ValueDef::deserialize(s.clone()))?.ok();
        check(def == want.as_ref().map(|v| v.value.clone()), || format!("as an inner value: {def:?}, expected {want:?}"))?;
        let comp = no_panic("deserialize", || Composite::deserialize(s.clone()))?.ok();
        let wc = src_comp(&s);
        check(comp == wc, || format!("as a composite: {comp:?}, expected {wc:?}"))?;
        let var = no_panic("deserialize", || Variant::deserialize(s.clone()))?.ok();
        if !matches!(s, Src::Map(..)) {
            let wv = match (&s, &want) {
                (Src::Newtype(_), _) => None,
                (_, Some(Value { value: ValueDef::Variant(v), .. })) => Some(v.clone()),
                _ => None,
            };
            check(var == wv, || format!("as a variant: {var:?}, expected {wv:?}"))?;
        }
        let prim = no_panic("deserialize", || Primitive::deserialize(s.clone()))?.ok();
        if let (Src::Prim(..), Some(Value { value: ValueDef::Primitive(p), .. })) = (&s, &want) {
            check(prim.as_ref() == Some(p), || format!("as a primitive: {prim:?}, expected {p:?}"))?;
        }
        Ok(())
    });
}
