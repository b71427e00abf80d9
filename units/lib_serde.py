"""What serde's data model and the value type have to do with each other: the specifications the serde code is verified against."""
from units import lib_value, u_value

D = "src/serde_impls/"

VALUES = r"""
// ---- a value, its contexts left out
pub enum GP { Bool(bool), Char(char), Str(Seq<char>), U128(u128), I128(i128), U256(Seq<u8>), I256(Seq<u8>) }
pub enum GV { Prim(GP), Bits(Seq<bool>), Comp(GC), Var(Seq<char>, GC) }
pub enum GC { Named(Seq<(Seq<char>, GV)>), Unnamed(Seq<GV>) }
pub open spec fn gp(p: Primitive) -> GP { match p { Primitive::Bool(b) => GP::Bool(b), Primitive::Char(c) => GP::Char(c), Primitive::String(s) => GP::Str(s@), Primitive::U128(n) => GP::U128(n), Primitive::I128(n) => GP::I128(n), Primitive::U256(b) => GP::U256(b@), Primitive::I256(b) => GP::I256(b@) } }
pub open spec fn gv<T>(v: Value<T>) -> GV decreases v { gd(v.value) }
pub open spec fn gd<T>(v: ValueDef<T>) -> GV decreases v {
    match v { ValueDef::Primitive(p) => GV::Prim(gp(p)), ValueDef::BitSequence(b) => GV::Bits(b.bits()), ValueDef::Composite(c) => GV::Comp(gc(c)), ValueDef::Variant(x) => GV::Var(x.name@, gc(x.values)) }
}
pub open spec fn gc<T>(c: Composite<T>) -> GC decreases c {
    match c {
        Composite::Named(v) => GC::Named(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { gi(v@[i]) } else { arbitrary() })),
        Composite::Unnamed(v) => GC::Unnamed(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { gv(v@[i]) } else { arbitrary() })),
    }
}
pub open spec fn gi<T>(p: (String, Value<T>)) -> (Seq<char>, GV) decreases p { (p.0@, gv(p.1)) }
pub open spec fn gvs<T>(s: Seq<Value<T>>) -> Seq<GV> { Seq::new(s.len(), |i: int| gv(s[i])) }
pub open spec fn gis<T>(s: Seq<(String, Value<T>)>) -> Seq<(Seq<char>, GV)> { Seq::new(s.len(), |i: int| gi(s[i])) }
pub broadcast proof fn gc_is<T>(c: Composite<T>) ensures #[trigger] gc(c) == match c { Composite::Named(v) => GC::Named(gis(v@)), Composite::Unnamed(v) => GC::Unnamed(gvs(v@)) }
{ match c { Composite::Named(v) => { assert(gc(c)->Named_0 =~= gis(v@)); } Composite::Unnamed(v) => { assert(gc(c)->Unnamed_0 =~= gvs(v@)); } } }
pub broadcast proof fn gv_is<T>(v: Value<T>) ensures #[trigger] gv(v) == gd(v.value), gd(v.value) == match v.value { ValueDef::Primitive(p) => GV::Prim(gp(p)), ValueDef::BitSequence(b) => GV::Bits(b.bits()), ValueDef::Composite(c) => GV::Comp(gc(c)), ValueDef::Variant(x) => GV::Var(x.name@, gc(x.values)) } {}
pub broadcast proof fn gd_is<T>(d: ValueDef<T>) ensures #[trigger] gd(d) == match d { ValueDef::Primitive(p) => GV::Prim(gp(p)), ValueDef::BitSequence(b) => GV::Bits(b.bits()), ValueDef::Composite(c) => GV::Comp(gc(c)), ValueDef::Variant(x) => GV::Var(x.name@, gc(x.values)) } {}
pub open spec fn no_names() -> Seq<GV> { Seq::empty() }
pub open spec fn unnamed(s: Seq<GV>) -> GV { GV::Comp(GC::Unnamed(s)) }
pub open spec fn named(s: Seq<(Seq<char>, GV)>) -> GV { GV::Comp(GC::Named(s)) }
"""

DATA = r"""
// ---- serde's data model: what a Serialize implementation hands to a serializer
pub enum Data {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32, F64, Char(char), Str(Seq<char>), Bytes(Seq<u8>),
    None, Some(Box<Data>), Unit, UnitStruct(Seq<char>), UnitVariant(Seq<char>, Seq<char>), NewtypeStruct(Seq<char>, Box<Data>), NewtypeVariant(Seq<char>, Seq<char>, Box<Data>),
    Seq(Option<usize>, Seq<Data>), Tuple(Seq<Data>), TupleStruct(Seq<char>, Seq<Data>), TupleVariant(Seq<char>, Seq<char>, Seq<Data>),
    Map(Option<usize>, Seq<(Data, Data)>), Struct(Seq<char>, Seq<(Seq<char>, Data)>), StructVariant(Seq<char>, Seq<char>, Seq<(Seq<char>, Data)>),
}
"""

TO_VALUE = r"""
// ---- the value that data stands for (None: there is none, and serializing it is an error)
pub open spec fn to_value(d: Data) -> Option<GV> decreases d {
    match d {
        Data::Bool(b) => Some(GV::Prim(GP::Bool(b))),
        Data::I8(n) => Some(GV::Prim(GP::I128(n as i128))), Data::I16(n) => Some(GV::Prim(GP::I128(n as i128))), Data::I32(n) => Some(GV::Prim(GP::I128(n as i128))),
        Data::I64(n) => Some(GV::Prim(GP::I128(n as i128))), Data::I128(n) => Some(GV::Prim(GP::I128(n))),
        Data::U8(n) => Some(GV::Prim(GP::U128(n as u128))), Data::U16(n) => Some(GV::Prim(GP::U128(n as u128))), Data::U32(n) => Some(GV::Prim(GP::U128(n as u128))),
        Data::U64(n) => Some(GV::Prim(GP::U128(n as u128))), Data::U128(n) => Some(GV::Prim(GP::U128(n))),
        Data::F32 | Data::F64 => None,
        Data::Char(c) => Some(GV::Prim(GP::Char(c))),
        Data::Str(s) => Some(GV::Prim(GP::Str(s))),
        Data::Bytes(b) => Some(unnamed(byte_values(b))),
        Data::None => Some(GV::Var("None"@, GC::Unnamed(seq![]))),
        Data::Some(x) => match to_value(*x) { Some(v) => Some(GV::Var("Some"@, GC::Unnamed(seq![v]))), None => None },
        Data::Unit | Data::UnitStruct(_) => Some(unnamed(seq![])),
        Data::UnitVariant(_, n) => Some(GV::Var(n, GC::Unnamed(seq![]))),
        Data::NewtypeStruct(_, x) => match to_value(*x) { Some(v) => Some(unnamed(seq![v])), None => None },
        Data::NewtypeVariant(_, n, x) => match to_value(*x) { Some(v) => Some(GV::Var(n, GC::Unnamed(seq![v]))), None => None },
        Data::Seq(_, xs) => a_list(to_values(xs)), Data::Tuple(xs) => a_list(to_values(xs)), Data::TupleStruct(_, xs) => a_list(to_values(xs)),
        Data::TupleVariant(_, n, xs) => match to_values(xs) { Some(v) => Some(GV::Var(n, GC::Unnamed(v))), None => None },
        Data::Map(_, xs) => match to_entries(xs) { Some(v) => Some(named(v)), None => None },
        Data::Struct(_, xs) => match to_fields(xs) { Some(v) => Some(named(v)), None => None },
        Data::StructVariant(_, n, xs) => match to_fields(xs) { Some(v) => Some(GV::Var(n, GC::Named(v))), None => None },
    }
}
pub open spec fn byte_values(b: Seq<u8>) -> Seq<GV> { b.map_values(|x: u8| GV::Prim(GP::U128(x as u128))) }
pub open spec fn a_list(v: Option<Seq<GV>>) -> Option<GV> { match v { Some(v) => Some(unnamed(v)), None => None } }
pub open spec fn to_values(xs: Seq<Data>) -> Option<Seq<GV>> decreases xs {
    if xs.len() == 0 { Some(seq![]) } else { match (to_values(xs.drop_last()), to_value(xs.last())) { (Some(v), Some(x)) => Some(v.push(x)), _ => None } }
}
pub open spec fn to_fields(xs: Seq<(Seq<char>, Data)>) -> Option<Seq<(Seq<char>, GV)>> decreases xs {
    if xs.len() == 0 { Some(seq![]) } else { match (to_fields(xs.drop_last()), to_value(xs.last().1)) { (Some(v), Some(x)) => Some(v.push((xs.last().0, x))), _ => None } }
}
// a key has to be text
pub open spec fn key_of(v: Option<GV>) -> Option<Seq<char>> { match v { Some(GV::Prim(GP::Str(s))) => Some(s), Some(GV::Prim(GP::Char(c))) => Some(seq![c]), _ => None } }
pub open spec fn to_entries(xs: Seq<(Data, Data)>) -> Option<Seq<(Seq<char>, GV)>> decreases xs {
    if xs.len() == 0 { Some(seq![]) } else { match (to_entries(xs.drop_last()), key_of(to_value(xs.last().0)), to_value(xs.last().1)) { (Some(v), Some(k), Some(x)) => Some(v.push((k, x))), _ => None } }
}
"""

OUT_OF = r"""
// ---- what a value hands to a serializer
pub open spec fn mark() -> Seq<char> { "__bitvec__values__"@ }
// the smallest type of its signedness that holds the number
pub open spec fn smallest_u(n: u128) -> Data { if n <= u8::MAX { Data::U8(n as u8) } else if n <= u16::MAX { Data::U16(n as u16) } else if n <= u32::MAX { Data::U32(n as u32) } else if n <= u64::MAX { Data::U64(n as u64) } else { Data::U128(n) } }
pub open spec fn smallest_i(n: i128) -> Data { if i8::MIN <= n <= i8::MAX { Data::I8(n as i8) } else if i16::MIN <= n <= i16::MAX { Data::I16(n as i16) } else if i32::MIN <= n <= i32::MAX { Data::I32(n as i32) } else if i64::MIN <= n <= i64::MAX { Data::I64(n as i64) } else { Data::I128(n) } }
pub open spec fn byte_data(b: Seq<u8>) -> Data { Data::Tuple(b.map_values(|x: u8| Data::U8(x))) }
pub open spec fn prim_data(p: GP) -> Data { match p { GP::Bool(b) => Data::Bool(b), GP::Char(c) => Data::Char(c), GP::Str(s) => Data::Str(s), GP::U128(n) => smallest_u(n), GP::I128(n) => smallest_i(n), GP::U256(b) => byte_data(b), GP::I256(b) => byte_data(b) } }
pub open spec fn bits_data(b: Seq<bool>) -> Data { Data::Seq(Some(b.len() as usize), b.map_values(|x: bool| Data::Bool(x))) }
pub open spec fn entry(k: Seq<char>, d: Data) -> (Data, Data) { (Data::Str(k), d) }
pub open spec fn variant_data(n: Seq<char>, values: Data) -> Data { Data::Map(Some(2), seq![entry("name"@, Data::Str(n)), entry("values"@, values)]) }
pub open spec fn data_of(v: GV) -> Data decreases v {
    match v { GV::Prim(p) => prim_data(p), GV::Bits(b) => Data::Map(Some(1), seq![entry(mark(), bits_data(b))]), GV::Comp(c) => comp_data(c), GV::Var(n, c) => variant_data(n, comp_data(c)) }
}
pub open spec fn comp_data(c: GC) -> Data decreases c {
    match c {
        GC::Named(xs) => Data::Map(Some(xs.len() as usize), Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { item_data(xs[i]) } else { arbitrary() })),
        GC::Unnamed(xs) => Data::Seq(Some(xs.len() as usize), Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { data_of(xs[i]) } else { arbitrary() })),
    }
}
pub open spec fn item_data(p: (Seq<char>, GV)) -> (Data, Data) decreases p { entry(p.0, data_of(p.1)) }
"""

# TryFrom between integers, as the standard library has it
CONV = "pub struct OutOfRange;\npub trait Conv<T> { spec fn conv(self) -> Option<T>; fn conv_into(self) -> (r: Result<T, OutOfRange>) ensures (match self.conv() { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err }); }\n" + "\n".join(
    f"impl Conv<{t}> for {s} {{ open spec fn conv(self) -> Option<{t}> {{ if {t}::MIN <= self <= {t}::MAX {{ Some(self as {t}) }} else {{ None }} }} #[verifier::external_body] fn conv_into(self) -> (r: Result<{t}, OutOfRange>) {{ self.try_into().map_err(|_| OutOfRange) }} }}"
    for s in ("u128", "i128") for t in [p + w for p in "ui" for w in "8 16 32 64 128".split()])

SERIALIZERS = r"""
pub trait HasData { spec fn data(&self) -> Data; }
// any serializer: what it gives is decided by the calls made on it
pub trait Serializer: Sized {
    type Ok; type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    spec fn gives(self) -> spec_fn(Data) -> Result<Self::Ok, Self::Error>;
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures match r { Ok(m) => m.entries().len() == 0 && m.promise() == map_gives(self.gives(), len), Err(e) => forall|all: Seq<(Data, Data)>| #[trigger] (self.gives())(Data::Map(len, all)) == Err::<Self::Ok, Self::Error>(e) };
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        ensures match r { Ok(m) => m.elements().len() == 0 && m.promise() == seq_gives(self.gives(), len), Err(e) => forall|all: Seq<Data>| #[trigger] (self.gives())(Data::Seq(len, all)) == Err::<Self::Ok, Self::Error>(e) };
OTHERS
}
pub open spec fn map_gives<A>(f: spec_fn(Data) -> A, len: Option<usize>) -> spec_fn(Seq<(Data, Data)>) -> A { |all: Seq<(Data, Data)>| f(Data::Map(len, all)) }
pub open spec fn seq_gives<A>(f: spec_fn(Data) -> A, len: Option<usize>) -> spec_fn(Seq<Data>) -> A { |all: Seq<Data>| f(Data::Seq(len, all)) }
pub trait SerializeMap: Sized {
    type Ok; type Error;
    spec fn entries(&self) -> Seq<(Data, Data)>;
    // what comes out if all this is handed over, and no more
    spec fn promise(&self) -> spec_fn(Seq<(Data, Data)>) -> Result<Self::Ok, Self::Error>;
    fn serialize_entry<K: HasData + ?Sized, V: HasData + ?Sized>(&mut self, key: &K, value: &V) -> (r: Result<(), Self::Error>)
        ensures match r { Ok(_) => final(self).entries() == old(self).entries().push((key.data(), value.data())) && final(self).promise() == old(self).promise(),
            Err(e) => forall|all: Seq<(Data, Data)>| old(self).entries().push((key.data(), value.data())).is_prefix_of(all) ==> #[trigger] (old(self).promise())(all) == Err::<Self::Ok, Self::Error>(e) };
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r == (self.promise())(self.entries());
}
pub trait SerializeSeq: Sized {
    type Ok; type Error;
    spec fn elements(&self) -> Seq<Data>;
    spec fn promise(&self) -> spec_fn(Seq<Data>) -> Result<Self::Ok, Self::Error>;
    fn serialize_element<T: HasData + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures match r { Ok(_) => final(self).elements() == old(self).elements().push(value.data()) && final(self).promise() == old(self).promise(),
            Err(e) => forall|all: Seq<Data>| old(self).elements().push(value.data()).is_prefix_of(all) ==> #[trigger] (old(self).promise())(all) == Err::<Self::Ok, Self::Error>(e) };
    fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r == (self.promise())(self.elements());
}
pub trait Serialize: HasData { fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) ensures r == (serializer.gives())(self.data()) /*@ D01 D06 */; }
"""
SIMPLE = {**{p + w: p.upper() + w for p in "ui" for w in "8 16 32 64 128".split()}, "bool": "Bool", "char": "Char"}
SERIALIZERS = SERIALIZERS.replace("OTHERS", "\n".join(f"    fn serialize_{n}(self, v: {n}) -> (r: Result<Self::Ok, Self::Error>) ensures r == (self.gives())(Data::{d}(v));" for n, d in SIMPLE.items()) + "\n    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures r == (self.gives())(Data::Str(v@));")


def serialize_impls():
    """serde's own implementations for plain types"""
    out = []
    for n, d in SIMPLE.items():
        out.append((n, f"Data::{d}(*self)"))
    out += [("String", "Data::Str(self@)"), ("str", "Data::Str(self@)"), ("[u8; 32]", "byte_data(self@)"), ("BitSequence", "bits_data(self.bits())")]
    return "\n".join(f"impl HasData for {t} {{ open spec fn data(&self) -> Data {{ {d} }} }}\nimpl Serialize for {t} {{ #[verifier::external_body] fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) {{ unimplemented!() }} }}" for t, d in out)

OFFERS = r"""
// ---- deserializers: what they hold, and which visitor method they call with what
pub enum Part { Val(GV), Comp(GC), Var(Seq<char>, GC), Prim(GP), Text(Seq<char>), Bools(Seq<bool>) }
pub enum Offer {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), Char(char), Str(Seq<char>), Bytes(Seq<u8>), ByteBuf(Seq<u8>),
    None, Some(Part), Unit, Seq(Seq<Part>), Map(Seq<(Seq<char>, Part)>), Enum(Seq<char>, GC),
}
pub enum Hint { Any, Bool, I8, I16, I32, I64, I128, U8, U16, U32, U64, U128, F32, F64, Char, Str, String, Bytes, ByteBuf, Option, Unit, UnitStruct, NewtypeStruct, Seq, Tuple(usize), TupleStruct(usize), Map, Struct, Enum, Identifier, Ignored }
pub open spec fn numeric(h: Hint) -> bool { h is I8 || h is I16 || h is I32 || h is I64 || h is I128 || h is U8 || h is U16 || h is U32 || h is U64 || h is U128 }
// the number as the type asked for, if it has room for it
pub open spec fn fitting(n: int, h: Hint) -> Option<Offer> {
    match h {
        NUMBERS
        _ => None,
    }
}
pub open spec fn vals(s: Seq<GV>) -> Seq<Part> { s.map_values(|v: GV| Part::Val(v)) }
pub open spec fn named_vals(s: Seq<(Seq<char>, GV)>) -> Seq<(Seq<char>, Part)> { s.map_values(|p: (Seq<char>, GV)| (p.0, Part::Val(p.1))) }
pub open spec fn seconds(s: Seq<(Seq<char>, GV)>) -> Seq<GV> { s.map_values(|p: (Seq<char>, GV)| p.1) }
pub open spec fn contents(c: GC) -> Seq<GV> { match c { GC::Named(v) => seconds(v), GC::Unnamed(v) => v } }
pub open spec fn is_byte(v: GV) -> bool { match v { GV::Prim(GP::U128(n)) => n <= 255, _ => false } }
pub open spec fn as_byte(v: GV) -> u8 { (v->Prim_0)->U128_0 as u8 }

pub open spec fn prim_any(p: GP) -> Offer { match p { GP::Bool(b) => Offer::Bool(b), GP::Char(c) => Offer::Char(c), GP::Str(s) => Offer::Str(s), GP::U128(n) => Offer::U128(n), GP::I128(n) => Offer::I128(n), GP::U256(b) => Offer::Bytes(b), GP::I256(b) => Offer::Bytes(b) } }
pub open spec fn offer_prim(p: GP, h: Hint) -> Option<Offer> {
    if numeric(h) { match p {
        GP::U128(n) => match fitting(n as int, h) { Some(o) => Some(o), None => Some(prim_any(p)) },
        GP::I128(n) => match fitting(n as int, h) { Some(o) => Some(o), None => Some(prim_any(p)) },
        _ => Some(prim_any(p)) } } else { Some(prim_any(p)) }
}
pub open spec fn comp_any(c: GC) -> Offer { match c { GC::Named(v) => Offer::Map(named_vals(v)), GC::Unnamed(v) => Offer::Seq(vals(v)) } }
pub open spec fn offer_comp(c: GC, h: Hint) -> Option<Offer> {
    match h {
        Hint::Seq => Some(Offer::Seq(vals(contents(c)))),
        Hint::Tuple(n) => if contents(c).len() == n { Some(Offer::Seq(vals(contents(c)))) } else { None },
        Hint::TupleStruct(n) => if contents(c).len() == n { Some(Offer::Seq(vals(contents(c)))) } else { None },
        Hint::Unit | Hint::UnitStruct => if contents(c).len() == 0 { Some(Offer::Unit) } else { None },
        Hint::Bytes | Hint::ByteBuf => if forall|i: int| 0 <= i < contents(c).len() ==> is_byte(#[trigger] contents(c)[i]) { Some(Offer::ByteBuf(contents(c).map_values(|v: GV| as_byte(v)))) } else { None },
        _ => Some(comp_any(c)),
    }
}
pub open spec fn offer_def(v: GV, h: Hint) -> Option<Offer> {
    match v {
        GV::Prim(p) => offer_prim(p, h),
        GV::Comp(c) => offer_comp(c, h),
        GV::Bits(b) => Some(Offer::Map(seq![(mark(), Part::Bools(b))])),
        GV::Var(n, c) => if h is Option && n == "Some"@ && c is Unnamed && contents(c).len() == 1 { Some(Offer::Some(Part::Val(contents(c)[0]))) }
            else if h is Option && n == "None"@ && c is Unnamed && contents(c).len() == 0 { Some(Offer::None) } else { Some(Offer::Enum(n, c)) },
    }
}
pub open spec fn offer(p: Part, h: Hint) -> Option<Offer> {
    match p {
        Part::Val(v) => offer_def(v, h), Part::Prim(p) => offer_prim(p, h), Part::Comp(c) => offer_comp(c, h), Part::Var(n, c) => Some(Offer::Enum(n, c)), Part::Text(s) => Some(Offer::Str(s)),
        Part::Bools(b) => Some(Offer::Seq(b.map_values(|x: bool| Part::Prim(GP::Bool(x))))),
    }
}
// the rows of that table that the properties speak of
pub open spec fn is_prim(p: Part) -> bool { match p { Part::Val(GV::Prim(_)) | Part::Prim(_) => true, _ => false } }
pub open spec fn is_num(p: Part) -> bool { match p { Part::Val(GV::Prim(GP::U128(_))) | Part::Prim(GP::U128(_)) | Part::Val(GV::Prim(GP::I128(_))) | Part::Prim(GP::I128(_)) => true, _ => false } }
pub open spec fn is_comp(p: Part) -> bool { match p { Part::Val(GV::Comp(_)) | Part::Comp(_) => true, _ => false } }
pub open spec fn is_var(p: Part) -> bool { match p { Part::Val(GV::Var(..)) | Part::Var(..) => true, _ => false } }
pub open spec fn optional(p: Part) -> bool { match p { Part::Val(GV::Var(n, GC::Unnamed(v))) => (n == "Some"@ && v.len() == 1) || (n == "None"@ && v.len() == 0), _ => false } }
pub open spec fn stated(p: Part, h: Hint) -> bool {
    if numeric(h) { is_num(p) } else { match h {
        Hint::Any => true,
        Hint::Bool | Hint::Char | Hint::Str | Hint::String => is_prim(p),
        Hint::Option => match p { Part::Val(GV::Var(..)) => true, _ => false },
        Hint::Seq | Hint::Tuple(_) | Hint::TupleStruct(_) | Hint::Unit | Hint::UnitStruct | Hint::Bytes | Hint::ByteBuf | Hint::Map | Hint::Struct => is_comp(p),
        Hint::Enum => is_var(p),
        _ => false,
    } }
}
"""
OFFERS = OFFERS.replace("NUMBERS", "\n        ".join(f"Hint::{t.upper()} => if {t}::MIN <= n <= {t}::MAX {{ Some(Offer::{t.upper()}(n as {t})) }} else {{ None }}," for t in [p + w for p in "ui" for w in "8 16 32 64 128".split()]))

SOURCES = r"""
// ---- what a generic source of data holds: which visitor method it calls when it is asked for anything at all
pub enum Src {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32, F64, Char(char), Str(Seq<char>), Bytes(Seq<u8>),
    None, Some(Box<Src>), Unit, Newtype(Box<Src>), Seq(Seq<Src>), Map(Seq<(Src, Src)>), Enum(Box<Src>, Box<Src>), Fails,
}
// serde's own String and Vec<bool>: of text and of bools, that text and those bools (of other things, whatever serde says)
pub uninterp spec fn other_text(s: Src) -> Option<Seq<char>>;
pub uninterp spec fn other_bools(s: Src) -> Option<Seq<bool>>;
pub open spec fn text_from(s: Src) -> Option<Seq<char>> { match s { Src::Str(t) => Some(t), Src::Fails => None, _ => other_text(s) } }
pub open spec fn bools_from(s: Src) -> Option<Seq<bool>> { match s { Src::Seq(v) => if forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Bool { Some(v.map_values(|x: Src| x->Bool_0)) } else { other_bools(s) }, _ => other_bools(s) } }
// the value that a source stands for (None: an error)
pub open spec fn prim_from(s: Src) -> Option<GP> {
    match s {
        Src::Bool(b) => Some(GP::Bool(b)), Src::Char(c) => Some(GP::Char(c)), Src::Str(t) => Some(GP::Str(t)),
        Src::I8(n) => Some(GP::I128(n as i128)), Src::I16(n) => Some(GP::I128(n as i128)), Src::I32(n) => Some(GP::I128(n as i128)), Src::I64(n) => Some(GP::I128(n as i128)), Src::I128(n) => Some(GP::I128(n)),
        Src::U8(n) => Some(GP::U128(n as u128)), Src::U16(n) => Some(GP::U128(n as u128)), Src::U32(n) => Some(GP::U128(n as u128)), Src::U64(n) => Some(GP::U128(n as u128)), Src::U128(n) => Some(GP::U128(n)),
        _ => None,
    }
}
pub open spec fn as_prim(p: Option<GP>) -> Option<GV> { match p { Some(p) => Some(GV::Prim(p)), None => None } }
pub open spec fn as_comp(c: Option<GC>) -> Option<GV> { match c { Some(c) => Some(GV::Comp(c)), None => None } }
pub open spec fn as_var(c: Option<(Seq<char>, GC)>) -> Option<GV> { match c { Some(c) => Some(GV::Var(c.0, c.1)), None => None } }
pub open spec fn val_from(s: Src) -> Option<GV> decreases s {
    match s {
        Src::Bytes(b) => Some(unnamed(byte_vals(b))),
        Src::Unit => Some(unnamed(seq![])),
        Src::Newtype(x) => val_from(*x),
        Src::Seq(xs) => as_comp(vals_from(xs)),
        Src::Map(xs) => if xs.len() == 0 { Some(named(seq![])) } else if text_from(xs[0].0) == Some(mark()) { match bools_from(xs[0].1) { Some(b) => Some(GV::Bits(b)), None => None } } else { as_comp(entries_from(xs)) },
        Src::Enum(n, x) => match (text_from(*n), comp_from(*x)) { (Some(n), Some(c)) => Some(GV::Var(n, c)), _ => None },
        Src::Some(x) => match val_from(*x) { Some(v) => Some(GV::Var("Some"@, GC::Unnamed(seq![v]))), None => None },
        Src::None => Some(GV::Var("None"@, GC::Unnamed(seq![]))),
        _ => as_prim(prim_from(s)),
    }
}
pub open spec fn byte_vals(b: Seq<u8>) -> Seq<GV> { b.map_values(|x: u8| GV::Prim(GP::U128(x as u128))) }
pub open spec fn comp_from(s: Src) -> Option<GC> decreases s {
    match s { Src::Bytes(b) => Some(GC::Unnamed(byte_vals(b))), Src::Unit => Some(GC::Unnamed(seq![])), Src::Newtype(x) => comp_from(*x), Src::Seq(xs) => vals_from(xs), Src::Map(xs) => entries_from(xs), _ => None }
}
pub open spec fn vals_from(xs: Seq<Src>) -> Option<GC> decreases xs {
    if forall|i: int| 0 <= i < xs.len() ==> val_from(#[trigger] xs[i]) is Some { Some(GC::Unnamed(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { val_from(xs[i])->Some_0 } else { arbitrary() }))) } else { None }
}
pub open spec fn entries_from(xs: Seq<(Src, Src)>) -> Option<GC> decreases xs {
    if forall|i: int| 0 <= i < xs.len() ==> entry_from(#[trigger] xs[i]) is Some { Some(GC::Named(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { entry_from(xs[i])->Some_0 } else { arbitrary() }))) } else { None }
}
pub open spec fn entry_from(e: (Src, Src)) -> Option<(Seq<char>, GV)> decreases e { match (text_from(e.0), val_from(e.1)) { (Some(k), Some(v)) => Some((k, v)), _ => None } }
// the same, a level at a time
pub open spec fn are_vals(xs: Seq<Src>, c: Option<GC>) -> bool { match c { Some(c) => c is Unnamed && c->Unnamed_0.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> val_from(#[trigger] xs[i]) == Some(c->Unnamed_0[i]), None => exists|i: int| 0 <= i < xs.len() && val_from(#[trigger] xs[i]) is None } }
pub open spec fn are_entries(xs: Seq<(Src, Src)>, c: Option<GC>) -> bool { match c { Some(c) => c is Named && c->Named_0.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> entry_from(#[trigger] xs[i]) == Some(c->Named_0[i]), None => exists|i: int| 0 <= i < xs.len() && entry_from(#[trigger] xs[i]) is None } }
pub broadcast proof fn vals_is(xs: Seq<Src>) ensures are_vals(xs, #[trigger] vals_from(xs)) {}
pub broadcast proof fn entries_is(xs: Seq<(Src, Src)>) ensures are_entries(xs, #[trigger] entries_from(xs)) {}
// a variant: from an enum, an option, or a map of name and values
pub open spec fn is_name(e: (Src, Src)) -> bool { text_from(e.0) == Some("name"@) }
pub open spec fn is_values(e: (Src, Src)) -> bool { text_from(e.0) == Some("values"@) }
pub open spec fn name_values(n: (Src, Src), v: (Src, Src)) -> Option<(Seq<char>, GC)> { match (text_from(n.1), comp_from(v.1)) { (Some(n), Some(c)) => Some((n, c)), _ => None } }
pub open spec fn var_from(s: Src) -> Option<(Seq<char>, GC)> {
    match s {
        Src::Enum(n, x) => match (text_from(*n), comp_from(*x)) { (Some(n), Some(c)) => Some((n, c)), _ => None },
        Src::Some(x) => match val_from(*x) { Some(v) => Some(("Some"@, GC::Unnamed(seq![v]))), None => None },
        Src::None => Some(("None"@, GC::Unnamed(seq![]))),
        Src::Map(xs) => if xs.len() == 2 && is_name(xs[0]) && is_values(xs[1]) { name_values(xs[0], xs[1]) } else if xs.len() == 2 && is_name(xs[1]) && is_values(xs[0]) { name_values(xs[1], xs[0]) } else { None },
        _ => None,
    }
}
// no entry twice
pub open spec fn no_repeats(xs: Seq<(Src, Src)>) -> bool { forall|i: int, j: int| 0 <= i < j < xs.len() && text_from(xs[i].0) is Some ==> text_from((#[trigger] xs[i]).0) != text_from((#[trigger] xs[j]).0) }
"""

# a function on each byte
SLICES = r"""
pub fn vec_map_slice<B, F: Fn(&u8) -> B>(v: &[u8], f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]),
{
    let mut r: Vec<B> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]),
        decreases v@.len() - i
    { r.push(f(&v[i])); i += 1; }
    r
}
"""
