"""serde_impls/deserializer.rs and map_access: values as the source of any Rust data (D02, D04, D05, D07)."""
import re
from units import lib_value, lib_serde, u_value
from vf.rust import LostAnchor, find_all, lex
PROPS = ["D02", "D04", "D05", "D06", "D07"]
ALSO = {"D02": ["D04"], "D05": ["D06"], "V03": ["D07"]}

HINTS = {**{p + w: "Hint::" + p.upper() + w for p in "ui" for w in "8 16 32 64 128".split()}, "any": "Hint::Any", "bool": "Hint::Bool", "f32": "Hint::F32", "f64": "Hint::F64", "char": "Hint::Char", "str": "Hint::Str", "string": "Hint::String",
         "bytes": "Hint::Bytes", "byte_buf": "Hint::ByteBuf", "option": "Hint::Option", "unit": "Hint::Unit", "unit_struct": "Hint::UnitStruct", "newtype_struct": "Hint::NewtypeStruct", "seq": "Hint::Seq", "tuple": "Hint::Tuple({len})",
         "tuple_struct": "Hint::TupleStruct({len})", "map": "Hint::Map", "struct": "Hint::Struct", "enum": "Hint::Enum", "identifier": "Hint::Identifier", "ignored_any": "Hint::Ignored"}
NUM = [p + w for p in "ui" for w in "8 16 32 64 128".split()]
TAG = {**{n: "D02 D04" for n in NUM}, "any": "D02 D04 D05 D06 D07", "option": "D04 D07", **{n: "D04 D07" for n in "seq tuple tuple_struct unit unit_struct bytes byte_buf".split()}, **{n: "D04" for n in "map struct enum bool char str string".split()}}
WHO = (("Value<T>", "Part::Val(gv(self))"), ("ValueDef<T>", "Part::Val(gd(self))"), ("Composite<T>", "Part::Comp(gc(self))"), ("Variant<T>", "Part::Var(self.name@, gc(self.values))"), ("Primitive", "Part::Prim(gp(self))"))

GLUE = r"""
#[verifier::external_body]
pub struct DeserializerError { e: u8 }
#[verifier::external_body]
pub fn de_error() -> DeserializerError { unimplemented!() }
#[verifier::external_body]
pub fn text_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }
pub fn one<A>(x: A) -> (r: Vec<A>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
// things that a visitor can be handed to
pub trait HasPart: Sized { spec fn part(self) -> Part; }
pub trait HasText: Sized { spec fn text(self) -> Seq<char>; }
impl HasText for String { open spec fn text(self) -> Seq<char> { self@ } }
impl HasText for &str { open spec fn text(self) -> Seq<char> { self@ } }
impl HasPart for bool { open spec fn part(self) -> Part { Part::Prim(GP::Bool(self)) } }
impl HasPart for Vec<bool> { open spec fn part(self) -> Part { Part::Bools(self@) } }
pub struct StringDeserializer { pub s: String }
impl HasPart for StringDeserializer { open spec fn part(self) -> Part { Part::Text(self.s@) } }
pub fn string_deserializer(s: String) -> (r: StringDeserializer) ensures r.s == s { StringDeserializer { s } }
// serde's sequence and map of deserializers
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct SeqDeserializer<P> { p: Vec<P> }
impl<P: HasPart> SeqDeserializer<P> {
    pub uninterp spec fn items(self) -> Seq<P>;
    #[verifier::external_body]
    pub fn new(v: Vec<P>) -> (r: Self) ensures r.items() == v@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(P)]
pub struct MapDeserializer<K, P> { p: Vec<(K, P)> }
impl<K: HasText, P: HasPart> MapDeserializer<K, P> {
    pub uninterp spec fn items(self) -> Seq<(K, P)>;
    #[verifier::external_body]
    pub fn new(v: Vec<(K, P)>) -> (r: Self) ensures r.items() == v@ { unimplemented!() }
}
pub open spec fn parts<P: HasPart>(s: Seq<P>) -> Seq<Part> { s.map_values(|p: P| p.part()) }
pub open spec fn entry_parts<K: HasText, P: HasPart>(s: Seq<(K, P)>) -> Seq<(Seq<char>, Part)> { s.map_values(|p: (K, P)| (p.0.text(), p.1.part())) }
// any visitor: what it makes of what it is handed
pub trait Visitor: Sized {
    type Value;
    spec fn take(self, o: Offer) -> Result<Self::Value, DeserializerError>;
PLAIN
    fn visit_char(self, v: char) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Char(v));
    fn visit_string(self, v: String) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Str(v@));
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Str(v@));
    fn visit_bytes(self, v: &[u8; 32]) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Bytes(v@));
    fn visit_byte_buf(self, v: Vec<u8>) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::ByteBuf(v@));
    fn visit_none(self) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::None);
    fn visit_unit(self) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Unit);
    fn visit_some<P: HasPart>(self, v: P) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Some(v.part()));
    fn visit_seq<P: HasPart>(self, v: SeqDeserializer<P>) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Seq(parts(v.items())));
    fn visit_map<K: HasText, P: HasPart>(self, v: MapDeserializer<K, P>) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Map(entry_parts(v.items())));
    fn visit_enum<T>(self, v: Variant<T>) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::Enum(v.name@, gc(v.values)));
}
pub trait DeserializeSeed: Sized {
    type Value;
    spec fn read(self, p: Part) -> Result<Self::Value, DeserializerError>;
    fn deserialize<P: HasPart>(self, p: P) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.read(p.part());
}
pub open spec fn offered<V: Visitor>(r: Result<V::Value, DeserializerError>, v: V, o: Option<Offer>) -> bool { match o { Some(o) => r == v.take(o), None => r is Err } }
// (): serde reads it with a visitor that takes a unit and nothing else
pub struct UnitVisitor;
impl UnitVisitor { pub open spec fn taken(o: Offer) -> bool { o is Unit } }
BITS
pub broadcast proof fn parts_vals<T>(s: Seq<Value<T>>) ensures #[trigger] parts(s) == vals(gvs(s)) { assert(parts(s) =~= vals(gvs(s))); }
pub broadcast proof fn parts_named<T>(s: Seq<(String, Value<T>)>) ensures #[trigger] entry_parts(s) == named_vals(gis(s)) { assert(entry_parts(s) =~= named_vals(gis(s))); }
pub broadcast proof fn parts_one<P: HasPart>(p: P) ensures #[trigger] parts(seq![p]) == seq![p.part()] { assert(parts(seq![p]) =~= seq![p.part()]); }
pub broadcast proof fn parts_one_entry<K: HasText, P: HasPart>(p: (K, P)) ensures #[trigger] entry_parts(seq![p]) == seq![(p.0.text(), p.1.part())] { assert(entry_parts(seq![p]) =~= seq![(p.0.text(), p.1.part())]); }
pub broadcast proof fn items_gvs<T>(c: Composite<T>) ensures #[trigger] gvs(items(c)) == contents(gc(c)) { gc_is(c); assert(gvs(items(c)) =~= contents(gc(c))); }
pub broadcast proof fn items_len<T>(c: Composite<T>) ensures (#[trigger] items(c)).len() == contents(gc(c)).len() { items_gvs(c); }
// map(..).collect() into a Result: the items, or the first error
pub fn try_map<A, B, F: Fn(A) -> Result<B, DeserializerError>>(v: Vec<A>, f: F) -> (r: Result<Vec<B>, DeserializerError>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)),
    ensures match r { Ok(w) => w@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), Ok(w@[i])), Err(e) => exists|i: int| 0 <= i < v@.len() && f.ensures((#[trigger] v@[i],), Err(e)) }
{
    let ghost g = v@;
    let mut r: Vec<B> = Vec::new();
    for x in it: v.into_iter()
        invariant it.seq() == g, r@.len() == it.index(), forall|i: int| 0 <= i < g.len() ==> f.requires((#[trigger] g[i],)), forall|i: int| 0 <= i < r@.len() ==> f.ensures((g[i],), Ok(#[trigger] r@[i])),
    { assert(x == g[it.index() as int]); match f(x) { Ok(y) => { r.push(y); } Err(e) => { return Err(e); } } }
    Ok(r)
}
"""
PLAIN = "\n".join(f"    fn visit_{n}(self, v: {n}) -> (r: Result<Self::Value, DeserializerError>) ensures r == self.take(Offer::{n.capitalize()}(v));" for n in ["bool", *NUM])
BITS = r"""
#[verifier::external_body]
pub fn bools(b: BitSequence) -> (r: Vec<bool>) ensures r@ == b.bits() { unimplemented!() }
"""
USE = "broadcast use gv_is, gc_is, parts_vals, parts_named, parts_one, parts_one_entry, items_gvs, items_len;"


def clean(f):
    f.sub_sig("serde::de::Visitor<'de>", "Visitor", minimum=0).sub_sig("de::Visitor<'de>", "Visitor", minimum=0).sub_sig("de::DeserializeSeed<'de>", "DeserializeSeed", minimum=0).sub_sig("Self::Error", "DeserializerError", minimum=0)
    f.sub_sig("Self::Variant", "Composite<T>", minimum=0)
    f.sub_opt("DeserializerError::from_str($x)", "de_error()").sub_opt("DeserializerError::from_string($x)", "de_error()")
    f.sub_opt("bitvec_helpers::map_access", "map_access")
    f.sub_opt("$n:ident.try_into().map_err(|_| $e:rest)", "(match $n.conv_into() { Ok(__n) => Ok(__n), Err(_) => Err($e) })")
    f.sub_opt("$n:ident.try_into()", "$n.conv_into()")
    f.sub_opt("de::value::SeqDeserializer", "SeqDeserializer").sub_opt("de::value::MapDeserializer", "MapDeserializer")
    f.sub_opt("Deserializer::new($v:ident.into_iter())", "$v")
    for k in ("SeqDeserializer", "MapDeserializer"):
        f.sub_opt(k + "::new($v:ident.into_iter())", k + "::new($v)")
        f.sub_opt(k + "::new(Some($x).into_iter())", k + "::new(one($x))").sub_opt(k + "::new([$x].into_iter())", k + "::new(one($x))")
    f.sub_opt("$v:ident.into_iter().map(|(_, $x:ident)| $e:rest)", "vec_map($v, |__a: (String, Value<T>)| -> (r: Value<T>) ensures r == __a.1 { let (_, $x) = __a; $e })")
    f.sub_opt("SeqDeserializer::new(vec_map($x))", "SeqDeserializer::new({ let __v = vec_map($x); proof { assert(gvs(__v@) =~= seconds(gis(values@))); } __v })")
    f.sub_opt("$a:ident == $s:tok &&", "text_is(&$a, $s) &&")
    f.sub_opt("$v:ident.is_empty()", "ISEMPTY($v)")
    f.sub_opt("ISEMPTY(self)", "self.is_empty()").sub_opt("ISEMPTY($v)", "($v.len() == 0)")
    return f.result()


def build(b):
    v = lib_value.types(b)
    b.emit("use vstd::string::*;\n")
    for t in (lib_serde.VALUES, lib_serde.OUT_OF.split("// the smallest type")[0], lib_serde.CONV, lib_serde.OFFERS):
        b.emit(t)
    u_value.sec_accessors(b, v)
    b.emit(GLUE.replace("PLAIN", PLAIN).replace("BITS", BITS))
    for t, p in WHO:
        b.emit(f"impl{'<T>' if '<' in t else ''} HasPart for {t} {{ open spec fn part(self) -> Part {{ {p} }} }}")
    h = b.src(lib_serde.D + "bitvec_helpers.rs")
    m = find_all(h.text, "static BITVEC_SERDE_IDENT: &str = $s:tok;")
    if len(m) != 1:
        raise LostAnchor("BITVEC_SERDE_IDENT")
    f = clean(h.find_fn("map_access")).sub_sig("<'de>", "", minimum=0).sub_sig("impl MapAccess<'de, Error = DeserializerError>", "MapDeserializer<&'static str, Vec<bool>>", minimum=0).sub_sig("impl MapAccess<Error = DeserializerError>", "MapDeserializer<&'static str, Vec<bool>>", minimum=0)
    f.sub("BITVEC_SERDE_IDENT", m[0][2]["s"]).sub_opt("$x:ident.iter().collect()", "bools($x)")
    b.fn(f.prelude(USE).contract("ensures entry_parts(r.items()) == seq![(mark(), Part::Bools(seq.bits()))] /*@ D05 */"))
    s = b.src_expanded(lib_serde.D + "deserializer.rs")
    for t, p in reversed(WHO):
        W = f"Deserializer<'de> for {t}"
        hdr, o, c = next((x for x in s.impls() if x[0].endswith(W) and "Into" not in x[0]), (None, 0, 0))
        if hdr is None:
            raise LostAnchor("no " + W)
        names = [s.toks[i + 1].s for i in range(o, c) if s.toks[i].s == "fn"]
        if sorted(names) != sorted("deserialize_" + n for n in HINTS):
            raise LostAnchor(f"{W} has other methods")
        b.emit(f"impl{'<T>' if '<' in t else ''} {t} {{")
        for n in HINTS:
            f = clean(s.find_fn("deserialize_" + n, within="> " + W if "<T>" in t else W))
            m = re.search(r"(\w+): usize", f.sig)
            hint = HINTS[n].format(len=m.group(1) if m else "")
            if n == "byte_buf" and t == "Composite<T>":
                f.sub("let $y:ident = $e.map(|$v:ident| $b:rest).collect::<$t>()?;", """let $y = { let __l = $e; let __r = try_map(__l, |$v: Value<T>| -> (r: Result<u8, DeserializerError>) ensures (if is_byte(gv($v)) { r is Ok && r->Ok_0 == as_byte(gv($v)) } else { r is Err }) { proof { broadcast use gv_is; } $b });
 proof { match &__r { Ok(w) => { assert forall|i: int| 0 <= i < contents(gc(self)).len() implies is_byte(#[trigger] contents(gc(self))[i]) by { assert(gvs(items(self))[i] == gv(items(self)[i])); assert(w@[i] == w@[i]); } assert(w@ =~= contents(gc(self)).map_values(|v: GV| as_byte(v))) by { assert forall|i: int| 0 <= i < w@.len() implies w@[i] == as_byte(#[trigger] contents(gc(self))[i]) by { assert(gvs(items(self))[i] == gv(items(self)[i])); } } } Err(_) => { let i = choose|i: int| 0 <= i < items(self).len() && !is_byte(gv(#[trigger] items(self)[i])); assert(contents(gc(self))[i] == gvs(items(self))[i]); } } } __r? };""")
            b.fn(f.prelude(USE).contract(f"ensures stated(self.part(), {hint}) ==> offered(r, visitor, offer(self.part(), {hint})) /*@ {TAG.get(n, 'D04')} */"), f"Deserializer for {t}: deserialize_{n}")
        b.emit("}")
    for t, p in WHO:
        if t == "ValueDef<T>":
            continue
        f = s.find_fn("into_deserializer", within=f"IntoDeserializer<'de, DeserializerError> for {t}").sub_sig("Self::Deserializer", t, minimum=0).result()
        b.emit(f"impl{'<T>' if '<' in t else ''} {t} {{")
        b.fn(f.contract("ensures r.part() == self.part() /*@ D04 D05 D06 D07 */"), f"IntoDeserializer for {t}")
        b.emit("}")
    # variants: a name, and values that the enum's visitor asks for
    b.emit("impl Visitor for UnitVisitor { type Value = (); open spec fn take(self, o: Offer) -> Result<(), DeserializerError> { if o is Unit { Ok(()) } else { Err(refusal()) } }\n" + UNIT + "}\npub uninterp spec fn refusal() -> DeserializerError;\nimpl<T> Composite<T> {")
    W = "VariantAccess<'de> for Composite<T>"
    f = clean(s.find_fn("unit_variant", within=W)).sub_opt("Deserialize::deserialize(self)", "self.deserialize_unit(UnitVisitor)").sub_opt("<()>::deserialize(self)", "self.deserialize_unit(UnitVisitor)")
    b.fn(f.prelude(USE).contract("ensures r is Ok <==> contents(gc(self)).len() == 0 /*@ D04 */"), W + ": unit_variant")
    f = clean(s.find_fn("newtype_variant_seed", within=W))
    b.fn(f.contract("ensures r == seed.read(Part::Comp(gc(self))) /*@ D05 */"), W + ": newtype_variant_seed")
    f = clean(s.find_fn("tuple_variant", within=W))
    b.fn(f.prelude(USE).contract("ensures offered(r, visitor, offer(Part::Comp(gc(self)), Hint::Tuple(len))) /*@ D04 */"), W + ": tuple_variant")
    f = clean(s.find_fn("struct_variant", within=W))
    b.fn(f.prelude(USE).contract("ensures offered(r, visitor, Some(comp_any(gc(self)))) /*@ D04 */"), W + ": struct_variant")
    b.emit("}\nimpl<T> Variant<T> {")
    f = clean(s.find_fn("variant_seed", within="EnumAccess<'de> for Variant<T>"))
    f.sub_opt("self.name.into_deserializer()", "string_deserializer(self.name)")
    f.sub_opt("$x:ident.deserialize($y:ident).map(|$n:ident| $e:rest)", "(match $x.deserialize($y) { Ok($n) => Ok($e), Err(e) => Err(e) })")
    b.fn(f.contract("ensures match seed.read(Part::Text(self.name@)) { Ok(n) => r is Ok && r->Ok_0.0 == n && r->Ok_0.1 == self.values, Err(e) => r is Err && r->Err_0 == e } /*@ D04 D05 */"), "EnumAccess for Variant<T>: variant_seed")
    b.emit("}")


UNIT = "\n".join(f"    #[verifier::external_body] fn visit_{n}(self, v: {t}) -> (r: Result<(), DeserializerError>) {{ unimplemented!() }}" for n, t in [*((x, x) for x in ["bool", *NUM, "char"]), ("string", "String"), ("str", "&str"), ("bytes", "&[u8; 32]"), ("byte_buf", "Vec<u8>")]) + """
    #[verifier::external_body] fn visit_none(self) -> (r: Result<(), DeserializerError>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<(), DeserializerError>) { Ok(()) }
    #[verifier::external_body] fn visit_some<P: HasPart>(self, v: P) -> (r: Result<(), DeserializerError>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<P: HasPart>(self, v: SeqDeserializer<P>) -> (r: Result<(), DeserializerError>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<K: HasText, P: HasPart>(self, v: MapDeserializer<K, P>) -> (r: Result<(), DeserializerError>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<T>(self, v: Variant<T>) -> (r: Result<(), DeserializerError>) { unimplemented!() }
"""
