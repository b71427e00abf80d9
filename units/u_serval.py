"""serde_impls/serializer.rs: Rust data to values (D03)."""
import re
from units import lib_value, lib_serde, u_value
from vf.rust import LostAnchor
PROPS = ["D03", "D04"]
ALSO = {"D03": ["D04"], "V03": ["D03", "D04"], "V04": ["D03", "D04"]}

GLUE = r"""
pub broadcast axiom fn str_into(s: &str) ensures #[trigger] into_text(s) == s@;
pub broadcast axiom fn string_into(s: String) ensures #[trigger] into_text(s) == s@;
#[verifier::external_body]
pub fn char_to_string(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
pub fn one<A>(x: A) -> (r: Vec<A>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
// things that can be serialized: what their Serialize implementations hand to a serializer
pub trait Serialize { spec fn data(&self) -> Data; }
// T::serialize(ValueSerializer): it makes the calls that its data stands for, each of which does what is shown here
#[verifier::external_body]
pub fn serialize_into_value<T: Serialize + ?Sized>(value: &T) -> (r: Result<Value<()>, SerializerError>) ensures made(r, to_value(value.data())) { unimplemented!() }
pub open spec fn made(r: Result<Value<()>, SerializerError>, v: Option<GV>) -> bool { match v { Some(g) => r is Ok && gv(r->Ok_0) == g, None => r is Err } }
pub open spec fn o_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub enum SerializerError { Custom(String), CannotSerializeFloats, MapKeyMustBeStringlike }
"""

DRIVERS = r"""
// ---- a whole compound, driven as serde's contract has it
pub open spec fn datas<T: Serialize>(xs: Seq<T>) -> Seq<Data> { xs.map_values(|x: T| x.data()) }
pub open spec fn pairs<K: Serialize, T: Serialize>(xs: Seq<(K, T)>) -> Seq<(Data, Data)> { xs.map_values(|x: (K, T)| (x.0.data(), x.1.data())) }
pub open spec fn fields<T: Serialize>(xs: Seq<(&'static str, T)>) -> Seq<(Seq<char>, Data)> { xs.map_values(|x: (&'static str, T)| (x.0@, x.1.data())) }
pub proof fn values_prefix(xs: Seq<Data>, n: int) requires 0 <= n <= xs.len(), to_values(xs.take(n)) is None ensures to_values(xs) is None decreases xs.len()
{ if n < xs.len() { assert(xs.drop_last().take(n) =~= xs.take(n)); values_prefix(xs.drop_last(), n); } else { assert(xs.take(n) =~= xs); } }
pub proof fn entries_prefix(xs: Seq<(Data, Data)>, n: int) requires 0 <= n <= xs.len(), to_entries(xs.take(n)) is None ensures to_entries(xs) is None decreases xs.len()
{ if n < xs.len() { assert(xs.drop_last().take(n) =~= xs.take(n)); entries_prefix(xs.drop_last(), n); } else { assert(xs.take(n) =~= xs); } }
pub proof fn fields_prefix(xs: Seq<(Seq<char>, Data)>, n: int) requires 0 <= n <= xs.len(), to_fields(xs.take(n)) is None ensures to_fields(xs) is None decreases xs.len()
{ if n < xs.len() { assert(xs.drop_last().take(n) =~= xs.take(n)); fields_prefix(xs.drop_last(), n); } else { assert(xs.take(n) =~= xs); } }
"""


def driver(name, params, start, item, items, to, elem, typ, post):
    return f"""
pub fn {name}{typ}({params}) -> (r: Result<Value<()>, SerializerError>)
    ensures {post} /*@ D03 */
{{
    let mut s = {start}?;
    let mut i: usize = 0;
    while i < xs.len()
        invariant i <= xs@.len(), {to}({items}(xs@).take(i as int)) == Some(s.items()), s.ready()
        {{0}}
        decreases xs.len() - i
    {{
        proof {{ let g = {items}(xs@); assert(g.take(i + 1).drop_last() =~= g.take(i as int)); assert(g.take(i + 1).last() == g[i as int]); if {to}(g.take(i + 1)) is None {{ {item}_prefix(g, i + 1); }} }}
        {elem}
        i += 1;
    }}
    proof {{ assert({items}(xs@).take(i as int) =~= {items}(xs@)); }}
    s.end()
}}
"""


def build(b):
    v = lib_value.types(b)
    b.emit("use vstd::string::*;\n")
    b.emit(lib_serde.VALUES)
    b.emit(lib_serde.DATA)
    b.emit(lib_serde.TO_VALUE)
    b.emit(lib_serde.SLICES)
    u_value.sec_accessors(b, v)
    u_value.sec_constructors(b, v)
    b.emit(GLUE)
    s = b.src_expanded(lib_serde.D + "serializer.rs")
    for n in ("UnnamedCompositeSerializer", "NamedCompositeSerializer"):
        b.emit(s.find_item("struct", n))
    b.emit("pub struct ValueSerializer;")
    W = "Serializer for ValueSerializer"
    hdr, o, c = next((h for h in s.impls() if h[0] == "impl " + W), (None, 0, 0))
    if hdr is None:
        raise LostAnchor("no " + W)
    assoc = dict(re.findall(r"\btype (\w+) = ([^;]+);", s.text[s.toks[o].a : s.toks[c].b]))
    if assoc.get("Ok") != "Value<()>" or assoc.get("Error") != "SerializerError":
        raise LostAnchor("ValueSerializer yields other things")

    def prep(f):
        f.result()
        for k, t in assoc.items():
            f.sub_sig("Self::" + k, t, minimum=0)
            f.sub_opt("Self::" + k, t)
        f.sub_sig("serde::Serialize", "Serialize", minimum=0)
        f.sub_opt("$x:ident.serialize(ValueSerializer)", "serialize_into_value($x)").sub_opt("ValueSerializer::$f($x)", "ValueSerializer.$f($x)")
        f.sub_opt("$x:ident.into()", "INTO($x)")
        f.sub_opt("vec![$x]", "one($x)")
        return f

    def items_spec(name, view):
        b.emit(f"impl {name} {{ spec fn variant(&self) -> Option<Seq<char>> {{ o_text(self.variant_name) }}\n spec fn items(&self) -> {view} }}")

    items_spec("UnnamedCompositeSerializer", "Seq<GV> { gvs(self.values@) }\n spec fn ready(&self) -> bool { true }")
    items_spec("NamedCompositeSerializer", "Seq<(Seq<char>, GV)> { gis(self.values@) }\n spec fn pending(&self) -> Option<Seq<char>> { o_text(self.key) }\n spec fn ready(&self) -> bool { true }")

    b.emit("impl ValueSerializer {")
    ints = {p + w: q for p, q in (("u", "u128"), ("i", "i128")) for w in "8 16 32 64 128".split()}
    BU = "broadcast use str_into, string_into, gc_is, gv_is;"

    def method(n, data, post=None, pre=BU, subs=()):
        f = prep(s.find_fn("serialize_" + n, within=W))
        f.sub_opt("INTO($x)", f"({{0}})".format("$x as " + ints[n])) if n in ints else f.sub_opt("INTO($x)", "$x" if n in ("bool", "char") else "into_string($x)")
        for p in subs:
            f.sub_opt(*p)
        b.fn(f.prelude(pre).contract(f"ensures {post or f'made(r, to_value({data}))'} /*@ D03 */"), f"ValueSerializer::serialize_{n}")

    for n in ("bool", "char", *ints):
        method(n, f"Data::{n.capitalize()}(v)")
    method("f32", "Data::F32", "r == Err::<Value<()>, SerializerError>(SerializerError::CannotSerializeFloats)")
    method("f64", "Data::F64", "r == Err::<Value<()>, SerializerError>(SerializerError::CannotSerializeFloats)")
    method("str", "Data::Str(v@)")
    # an iterator over the mapped bytes: its list
    method("bytes", "Data::Bytes(v@)", pre=BU, subs=(("let $x:ident = $v:ident.iter().map(|&$a:ident| $e:rest);", "let $x = vec_map_slice($v, |__a: &u8| -> (r: Value<()>) ensures r.value == ValueDef::<()>::Primitive(Primitive::U128(*__a as u128)) { let $a = *__a; $e }); proof { assert(gvs($x@) =~= byte_values(v@)); }"),
        ("Value::from_bytes($e:ident)", "({ let __v = Value::from_bytes($e); proof { assert(gvs(__v.value->Composite_0->Unnamed_0@) =~= byte_values(v@)); } __v })")))
    E = "proof { lemma_empty(); }"
    method("none", "Data::None", pre=BU + E)
    method("some", "Data::Some(Box::new(value.data()))", pre=BU + E)
    method("unit", "Data::Unit", pre=BU + E)
    method("unit_struct", "Data::UnitStruct(_name@)", pre=BU + E)
    method("unit_variant", "Data::UnitVariant(_name@, variant@)", pre=BU + E)
    method("newtype_struct", "Data::NewtypeStruct(_name@, Box::new(value.data()))", pre=BU + E)
    method("newtype_variant", "Data::NewtypeVariant(_name@, variant@, Box::new(value.data()))", pre=BU + E)
    new = "r is Ok && r->Ok_0.items().len() == 0 && r->Ok_0.variant() == "
    for n, var in (("seq", "None::<Seq<char>>"), ("tuple", "None::<Seq<char>>"), ("tuple_struct", "None::<Seq<char>>"), ("tuple_variant", "Some(variant@)"), ("map", "None::<Seq<char>>"), ("struct", "None::<Seq<char>>"), ("struct_variant", "Some(variant@)")):
        method(n, "", new + var)
    b.emit("}")
    b.emit(r"""
proof fn lemma_empty() ensures forall|v: Seq<Value<()>>| v.len() == 0 ==> gvs(v) == Seq::<GV>::empty(), forall|v: Value<()>| #[trigger] gvs(seq![v]) == seq![gv(v)]
{ assert forall|v: Seq<Value<()>>| v.len() == 0 implies gvs(v) == Seq::<GV>::empty() by { assert(gvs(v) =~= Seq::<GV>::empty()); } assert forall|v: Value<()>| #[trigger] gvs(seq![v]) == seq![gv(v)] by { assert(gvs(seq![v]) =~= seq![gv(v)]); } }
""")
    for who, item, coll in (("Unnamed", "Value<()>", "gvs"), ("Named", "(String, Value<()>)", "gis")):
        name = who + "CompositeSerializer"
        gcx = "GC::" + who
        b.emit(f"impl {name} {{")
        for n, var in (("new_composite", "None::<Seq<char>>"), ("new_variant", "Some(variant_name@)")):
            f = prep(s.find_fn(n, within="impl " + name)).sub_sig("Self", name, minimum=0)
            b.fn(f.contract(f"ensures r.items().len() == 0 && r.variant() == {var} /*@ D03 */"), f"{name}::{n}")
        END = f"ensures r is Ok && gv(r->Ok_0) == (match self.variant() {{ Some(n) => GV::Var(n, {gcx}(self.items())), None => GV::Comp({gcx}(self.items())) }}) /*@ D03 */"
        PUSH = "ensures match to_value(value.data()) { Some(g) => r is Ok && final(self).variant() == old(self).variant() && final(self).items() == old(self).items().push(%s), None => r is Err } /*@ D03 */"

        def end(f):
            gi_ = "" if who == "Unnamed" else "proof { assert forall|v: Seq<(String, Value<()>)>, c: Composite<()>| #[trigger] is_named(c, v) implies c is Named && gis(c->Named_0@) == gis(v) by { assert(gis(c->Named_0@) =~= gis(v)); } assert forall|c: Composite<()>| c is Named implies gc(c) == GC::Named(#[trigger] gis(c->Named_0@)) by { gc_is(c); } }"
            if who == "Unnamed":
                gi_ = "proof { assert forall|c: Composite<()>| c is Unnamed implies gc(c) == GC::Unnamed(#[trigger] gvs(c->Unnamed_0@)) by { gc_is(c); } }"
            return prep(f).prelude(BU + gi_).contract(END)

        def push(f, key=None):
            g = "g" if key is None else f"({key}, g)"
            f = prep(f).sub_opt("self.values.push($x);", f"self.values.push($x); proof {{ assert({coll}(self.values@) =~= {coll}(old(self).values@).push({'gv' if key is None else 'gi'}(self.values@.last()))); }}")
            return f.contract(PUSH % g)

        inherent = "serialize_element" if who == "Unnamed" else "serialize_field"
        f = push(s.find_fn(inherent, within="impl " + name), None if who == "Unnamed" else "key@")
        b.fn(f, f"{name}::{inherent}")
        b.fn(end(s.find_fn("end", within="impl " + name)), f"{name}::end")
        for k, t in assoc.items():
            if t != name:
                continue
            w = f"{k} for {name}"
            if k == "SerializeMap":
                f = prep(s.find_fn("serialize_key", within=w)).sub_sig("fn serialize_key", "fn SerializeMap_serialize_key")
                f.sub_opt("$c:ident.to_string()", "char_to_string($c)")
                b.fn(f.contract("ensures match key_of(to_value(key.data())) { Some(k) => r is Ok && final(self).variant() == old(self).variant() && final(self).items() == old(self).items() && final(self).pending() == Some(k), None => r is Err } /*@ D03 */"), f"{w}: serialize_key")
                f = prep(s.find_fn("serialize_value", within=w)).sub_sig("fn serialize_value", "fn SerializeMap_serialize_value")
                b.fn(f.contract("requires old(self).pending() is Some\n" + PUSH % "(old(self).pending()->Some_0, g)"), f"{w}: serialize_value")
            else:
                n = "serialize_element" if k in ("SerializeSeq", "SerializeTuple") else "serialize_field"
                f = prep(s.find_fn(n, within=w)).sub_sig("fn " + n, f"fn {k}_{n}")
                b.fn(f.contract(PUSH % ("g" if who == "Unnamed" else "(key@, g)")), f"{w}: {n}")
            f = prep(s.find_fn("end", within=w)).sub_sig("fn end", f"fn {k}_end")
            b.fn(f.contract(END), f"{w}: end")
        b.emit("}")
    # whole compounds
    b.emit(DRIVERS)
    T = "<T: Serialize>"

    def drive(name, k, params, call, items, to, coll, meth, typ, post, keep):
        t = driver(name, params, f"ValueSerializer.serialize_{k}({call})", {"to_values": "values", "to_entries": "entries", "to_fields": "fields"}[to], items, to, meth, typ, post)
        t = t.replace("{0}", (", " if False else "") + "").replace("s.ready()", keep).replace("s.end()", f"s.{SER[k]}_end()")
        b.emit(t)

    SER = dict(seq="SerializeSeq", tuple="SerializeTuple", tuple_struct="SerializeTupleStruct", tuple_variant="SerializeTupleVariant", map="SerializeMap", struct="SerializeStruct", struct_variant="SerializeStructVariant")
    N, S = "s.variant() is None", "s.variant() == Some(variant@)"
    st = "&'static str"
    drive("drive_seq", "seq", "len: Option<usize>, xs: &Vec<T>", "len", "datas", "to_values", 0, "s.SerializeSeq_serialize_element(&xs[i])?;", T, "made(r, to_value(Data::Seq(len, datas(xs@))))", N)
    drive("drive_tuple", "tuple", "len: usize, xs: &Vec<T>", "len", "datas", "to_values", 0, "s.SerializeTuple_serialize_element(&xs[i])?;", T, "made(r, to_value(Data::Tuple(datas(xs@))))", N)
    drive("drive_tuple_struct", "tuple_struct", f"name: {st}, len: usize, xs: &Vec<T>", "name, len", "datas", "to_values", 0, "s.SerializeTupleStruct_serialize_field(&xs[i])?;", T, "made(r, to_value(Data::TupleStruct(name@, datas(xs@))))", N)
    drive("drive_tuple_variant", "tuple_variant", f"name: {st}, index: u32, variant: {st}, len: usize, xs: &Vec<T>", "name, index, variant, len", "datas", "to_values", 0, "s.SerializeTupleVariant_serialize_field(&xs[i])?;", T, "made(r, to_value(Data::TupleVariant(name@, variant@, datas(xs@))))", S)
    drive("drive_map", "map", "len: Option<usize>, xs: &Vec<(K, T)>", "len", "pairs", "to_entries", 0, "s.SerializeMap_serialize_key(&xs[i].0)?; s.SerializeMap_serialize_value(&xs[i].1)?;", "<K: Serialize, T: Serialize>", "made(r, to_value(Data::Map(len, pairs(xs@))))", N)
    drive("drive_struct", "struct", f"name: {st}, len: usize, xs: &Vec<({st}, T)>", "name, len", "fields", "to_fields", 0, "s.SerializeStruct_serialize_field(xs[i].0, &xs[i].1)?;", T, "made(r, to_value(Data::Struct(name@, fields(xs@))))", N)
    drive("drive_struct_variant", "struct_variant", f"name: {st}, index: u32, variant: {st}, len: usize, xs: &Vec<({st}, T)>", "name, index, variant, len", "fields", "to_fields", 0, "s.SerializeStructVariant_serialize_field(xs[i].0, &xs[i].1)?;", T, "made(r, to_value(Data::StructVariant(name@, variant@, fields(xs@))))", S)
