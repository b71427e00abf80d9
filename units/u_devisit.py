"""serde_impls/deserialize.rs and the map visitor of bitvec_helpers.rs: values from any serde source (D02, D05, D06, D08)."""
import re
from units import lib_value, lib_serde, u_value
from vf.rust import LostAnchor, Fn, find_all
PROPS = ["D02", "D05", "D06", "D08"]

NUM = [p + w for p in "ui" for w in "8 16 32 64 128".split()]

GLUE = r"""
impl BitSequence {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bits() == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, b: bool) ensures final(self).bits() == old(self).bits().push(b) { unimplemented!() }
}
#[verifier::external_body]
pub fn text_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }
#[verifier::external_body]
pub fn to_text(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub fn one<A>(x: A) -> (r: Vec<A>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
#[verifier::external_body]
pub fn some_room<A>(n: usize) -> (r: Vec<A>) requires n <= 1024 /*@ D08 */ ensures r@ == Seq::<A>::empty() { Vec::with_capacity(n) }
pub trait DeError: Sized { fn error() -> Self; }
// types that are read from a source: which source makes what
pub trait Reads: Sized { type G; spec fn g(self) -> Self::G; spec fn makes(s: Src) -> Option<Self::G>; }
pub open spec fn made<T: Reads, E>(r: Result<T, E>, v: Option<T::G>) -> bool { match v { Some(x) => r is Ok && r->Ok_0.g() == x, None => r is Err } }
pub open spec fn is_made<T: Reads>(r: T, s: Src) -> bool { T::makes(s) == Some(r.g()) }
impl Reads for Value<()> { type G = GV; open spec fn g(self) -> GV { gv(self) } open spec fn makes(s: Src) -> Option<GV> { val_from(s) } }
impl Reads for ValueDef<()> { type G = GV; open spec fn g(self) -> GV { gd(self) } open spec fn makes(s: Src) -> Option<GV> { val_from(s) } }
impl Reads for Primitive { type G = GP; open spec fn g(self) -> GP { gp(self) } open spec fn makes(s: Src) -> Option<GP> { prim_from(s) } }
impl Reads for Composite<()> { type G = GC; open spec fn g(self) -> GC { gc(self) } open spec fn makes(s: Src) -> Option<GC> { comp_from(s) } }
impl Reads for Variant<()> { type G = (Seq<char>, GC); open spec fn g(self) -> (Seq<char>, GC) { (self.name@, gc(self.values)) } open spec fn makes(s: Src) -> Option<(Seq<char>, GC)> { var_from(s) } }
impl Reads for String { type G = Seq<char>; open spec fn g(self) -> Seq<char> { self@ } open spec fn makes(s: Src) -> Option<Seq<char>> { text_from(s) } }
impl Reads for Vec<bool> { type G = Seq<bool>; open spec fn g(self) -> Seq<bool> { self@ } open spec fn makes(s: Src) -> Option<Seq<bool>> { bools_from(s) } }
// visitors: the type they make, of the sources that the properties speak of
pub trait Visits: Sized { type Value: Reads; spec fn speaks(s: Src) -> bool; }
// any deserializer: asked for anything, it calls the visitor method that fits what it holds
pub trait Deserializer: Sized {
    type Error: DeError;
    spec fn src(self) -> Src;
    fn deserialize_any<V: Visits>(self, visitor: V) -> (r: Result<V::Value, Self::Error>) ensures V::speaks(self.src()) ==> made(r, V::Value::makes(self.src()));
}
pub trait SeqAccess: Sized {
    type Error: DeError;
    spec fn all(&self) -> Seq<Src>;
    spec fn pos(&self) -> int;
    fn size_hint(&self) -> Option<usize>;
    fn next_element<T: Reads>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        requires 0 <= old(self).pos() <= old(self).all().len(),
        ensures final(self).all() == old(self).all(), ({ let p = old(self).pos(); let all = old(self).all();
            if p == all.len() { r is Ok && r->Ok_0 is None && final(self).pos() == p } else if T::makes(all[p]) is Some { r is Ok && r->Ok_0 is Some && is_made(r->Ok_0->Some_0, all[p]) && final(self).pos() == p + 1 } else { r is Err } });
}
pub trait MapAccess: Sized {
    type Error: DeError;
    spec fn all(&self) -> Seq<(Src, Src)>;
    spec fn pos(&self) -> int;
    // a key has been read, and its value has not
    spec fn open(&self) -> bool;
    fn size_hint(&self) -> Option<usize>;
    fn next_key<K: Reads>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires 0 <= old(self).pos() <= old(self).all().len(), !old(self).open(),
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos(), ({ let p = old(self).pos(); let all = old(self).all();
            if p == all.len() { r is Ok && r->Ok_0 is None && !final(self).open() } else if K::makes(all[p].0) is Some { r is Ok && r->Ok_0 is Some && is_made(r->Ok_0->Some_0, all[p].0) && final(self).open() } else { r is Err } });
    fn next_value<V: Reads>(&mut self) -> (r: Result<V, Self::Error>)
        requires 0 <= old(self).pos() < old(self).all().len(), old(self).open(),
        ensures final(self).all() == old(self).all(), ({ let p = old(self).pos(); let all = old(self).all();
            made(r, V::makes(all[p].1)) && (r is Ok ==> final(self).pos() == p + 1 && !final(self).open()) });
    fn next_entry<K: Reads, V: Reads>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        requires 0 <= old(self).pos() <= old(self).all().len(), !old(self).open(),
        ensures final(self).all() == old(self).all(), !final(self).open(), ({ let p = old(self).pos(); let all = old(self).all();
            if p == all.len() { r is Ok && r->Ok_0 is None && final(self).pos() == p } else if K::makes(all[p].0) is Some && V::makes(all[p].1) is Some { r is Ok && r->Ok_0 is Some && is_made(r->Ok_0->Some_0.0, all[p].0) && is_made(r->Ok_0->Some_0.1, all[p].1) && final(self).pos() == p + 1 } else { r is Err } });
}
pub trait VariantAccess: Sized {
    type Error: DeError;
    spec fn content(self) -> Src;
    fn newtype_variant<T: Reads>(self) -> (r: Result<T, Self::Error>) ensures made(r, T::makes(self.content()));
}
pub trait EnumAccess: Sized {
    type Error: DeError;
    type Variant: VariantAccess<Error = Self::Error>;
    spec fn name(self) -> Src;
    spec fn content(self) -> Src;
    fn variant<T: Reads>(self) -> (r: Result<(T, Self::Variant), Self::Error>)
        ensures match T::makes(self.name()) { Some(n) => r is Ok && is_made(r->Ok_0.0, self.name()) && r->Ok_0.1.content() == self.content(), None => r is Err };
}
pub open spec fn some_seq(n: int) -> bool { true }
pub open spec fn o_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn o_comp(o: Option<Composite<()>>) -> Option<GC> { match o { Some(s) => Some(gc(s)), None => None } }
pub open spec fn so_far(all: Seq<(Src, Src)>, p: int, name: Option<Seq<char>>, values: Option<GC>) -> bool {
    if p == 0 { name is None && values is None }
    else if p == 1 { (is_name(all[0]) && name is Some && text_from(all[0].1) == name && values is None) || (is_values(all[0]) && values is Some && comp_from(all[0].1) == values && name is None) }
    else { p == 2 && name is Some && values is Some && ((is_name(all[0]) && is_values(all[1]) && name_values(all[0], all[1]) == Some((name->Some_0, values->Some_0))) || (is_name(all[1]) && is_values(all[0]) && name_values(all[1], all[0]) == Some((name->Some_0, values->Some_0)))) }
}
pub proof fn name_is_not_values() ensures "name"@ != "values"@ { reveal_strlit("name"); reveal_strlit("values"); assert("name"@.len() != "values"@.len()); }
"""
BU = "broadcast use gv_is, gd_is, gc_is, gvs_of, gis_of, vals_is, entries_is;"
LISTS = r"""
pub open spec fn vals_ok(xs: Seq<Src>, v: Seq<Value<()>>) -> bool { v.len() <= xs.len() && forall|i: int| 0 <= i < v.len() ==> is_made(v[i], #[trigger] xs[i]) }
pub open spec fn entries_ok(xs: Seq<(Src, Src)>, v: Seq<(String, Value<()>)>) -> bool { v.len() <= xs.len() && forall|i: int| 0 <= i < v.len() ==> is_made(v[i].0, (#[trigger] xs[i]).0) && is_made(v[i].1, xs[i].1) }
pub broadcast proof fn gvs_of(v: Seq<Value<()>>) ensures (#[trigger] gvs(v)).len() == v.len(), v.len() == 0 ==> gvs(v) == Seq::<GV>::empty(), v.len() == 1 ==> gvs(v) == seq![gv(v[0])] { if v.len() == 0 { assert(gvs(v) =~= Seq::<GV>::empty()); } if v.len() == 1 { assert(gvs(v) =~= seq![gv(v[0])]); } }
pub broadcast proof fn gis_of(v: Seq<(String, Value<()>)>) ensures (#[trigger] gis(v)).len() == v.len(), v.len() == 0 ==> gis(v) == Seq::<(Seq<char>, GV)>::empty() { if v.len() == 0 { assert(gis(v) =~= Seq::<(Seq<char>, GV)>::empty()); } }
pub proof fn vals_made(xs: Seq<Src>, v: Seq<Value<()>>) requires xs.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> is_made(v[i], #[trigger] xs[i]) ensures vals_from(xs) == Some(GC::Unnamed(gvs(v)))
{ assert forall|i: int| 0 <= i < xs.len() implies val_from(#[trigger] xs[i]) == Some(gv(v[i])) by {} assert((vals_from(xs)->Some_0)->Unnamed_0 =~= gvs(v)); }
pub proof fn entries_made(xs: Seq<(Src, Src)>, v: Seq<(String, Value<()>)>) requires xs.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> is_made(v[i].0, (#[trigger] xs[i]).0) && is_made(v[i].1, xs[i].1) ensures entries_from(xs) == Some(GC::Named(gis(v)))
{ assert forall|i: int| 0 <= i < xs.len() implies entry_from(#[trigger] xs[i]) == Some(gi(v[i])) by {} assert((entries_from(xs)->Some_0)->Named_0 =~= gis(v)); }
"""
VLOOP = """invariant_except_break !map.open(),
 invariant __p.all() == __all, map.all() == __all, 0 <= map.pos() <= __all.len(), "name"@ != "values"@, no_repeats(__all) ==> so_far(__all, map.pos(), o_text(name), o_comp(values)),
 ensures map.pos() == __all.len(),
 decreases __all.len() - map.pos()"""
# serde's own defaults for the methods that a visitor does not have
FORWARD = {**{"i8": "i64", "i16": "i64", "i32": "i64", "u8": "u64", "u16": "u64", "u32": "u64"}, "char": None, "string": "str"}


def clean(f):
    f.result()
    f.sub_sig("serde::de::SeqAccess<'de>", "SeqAccess", minimum=0).sub_sig("serde::de::MapAccess<'de>", "MapAccess", minimum=0).sub_sig("serde::de::EnumAccess<'de>", "EnumAccess", minimum=0).sub_sig("serde::de::Error", "DeError", minimum=0)
    f.sub_sig("MapAccess<'de>", "MapAccess", minimum=0).sub_sig("serde::Deserializer<'de>", "Deserializer", minimum=0).sub_sig("Deserializer<'de>", "Deserializer", minimum=0).sub_sig("E: Error", "E: DeError", minimum=0)
    f.sub_sig("where $x:ident: $b:ident,", "", minimum=0)
    for p, b in (("E", "DeError"), ("D", "Deserializer"), ("A", {"visit_seq": "SeqAccess", "visit_map": "MapAccess", "visit_enum": "EnumAccess"}.get(f.name, "SeqAccess"))):
        f.sub_sig(f"<{p}>", f"<{p}: {b}>", minimum=0)
    if f.name in ("visit_seq", "visit_map"):
        m = re.search(r"(\bmut )?\b(\w+): A\b", f.sig)
        if not m:
            raise LostAnchor(f.name + " takes no A")
        f.sig = f.sig.replace(m.group(0), "__p: A")
        f.body = f" let {m.group(1) or ''}{m.group(2)} = __p; " + f.body
    f.sub_opt("A::Error::unknown_field($x)", "<A::Error as DeError>::error()").sub_opt("A::Error::custom($x)", "<A::Error as DeError>::error()")
    f.sub_opt("Vec::with_capacity($x)", "some_room($x)")
    f.sub_opt("$s:tok.to_string()", "to_text($s)").sub_opt("vec![$x]", "one($x)")
    return f


def build(b):
    v = lib_value.types(b)
    b.emit("use vstd::string::*;\n")
    for t in (lib_serde.VALUES, lib_serde.OUT_OF.split("// the smallest type")[0], lib_serde.SOURCES, lib_serde.SLICES):
        b.emit(t)
    u_value.sec_accessors(b, v)
    u_value.sec_constructors(b, v)
    b.emit(GLUE)
    b.emit(LISTS)
    s = b.src_expanded(lib_serde.D + "deserialize.rs")
    h = b.src(lib_serde.D + "bitvec_helpers.rs")
    for n in ("PrimitiveVisitor", "CompositeVisitor", "VariantVisitor", "ValueDefVisitor"):
        b.emit(f"pub struct {n};")
    b.emit("pub struct MapOrBitSeqVisitor;")
    b.consts(s, h)
    OUT = {"PrimitiveVisitor": "Primitive", "CompositeVisitor": "Composite<()>", "VariantVisitor": "Variant<()>", "ValueDefVisitor": "ValueDef<()>", "MapOrBitSeqVisitor": "ValueDef<()>"}
    for n, t in OUT.items():
        speaks = {"PrimitiveVisitor": "prim_from(s) is Some", "VariantVisitor": "s is Map ==> no_repeats(s->Map_0)"}.get(n, "true")
        b.emit(f"impl Visits for {n} {{ type Value = {t}; open spec fn speaks(s: Src) -> bool {{ {speaks} }} }}")
    # what the types are read with
    for t, tags in (("Value<()>", "D02 D05"), ("ValueDef<()>", "D02 D05"), ("Primitive", "D02 D05"), ("Composite<()>", "D02 D05 D06"), ("Variant<()>", "D05 D06")):
        f = clean(s.find_fn("deserialize", within=f"Deserialize<'de> for {t}"))
        b.emit(f"impl {t} {{")
        speaks = {"Primitive": "prim_from(deserializer.src()) is Some ==> ", "Variant<()>": "(deserializer.src() is Map ==> no_repeats(deserializer.src()->Map_0)) ==> "}.get(t, "")
        b.fn(f.prelude(BU).contract(f"ensures {speaks}made(r, <{t} as Reads>::makes(deserializer.src())) /*@ {tags} D08 */"), f"Deserialize for {t}")
        b.emit("}")

    def methods(vis, src):
        W = f"Visitor<'de> for {vis}"
        hdr, o, c = next((x for x in src.impls() if x[0].endswith(W)), (None, 0, 0))
        if hdr is None:
            raise LostAnchor("no " + W)
        return W, [src.toks[i + 1].s for i in range(o, c) if src.toks[i].s == "fn"]

    def emit(vis, src, kinds):
        W, have = methods(vis, src)
        b.emit(f"impl {vis} {{")
        for n, post, pre, extra in kinds:
            if "visit_" + n not in have:
                raise LostAnchor(f"{W} has no visit_{n}")
            f = clean(src.find_fn("visit_" + n, within=W)).sub_sig("Self::Value", OUT[vis], minimum=0)
            extra(f)
            req = {"visit_seq": "requires __p.pos() == 0, ", "visit_map": "requires __p.pos() == 0, !__p.open(), "}.get(f.name, "")
            b.fn(f.prelude(pre).contract(req + "ensures " + post), f"{vis}::visit_{n}")
        b.emit("}")

    def prim(n):
        def go(f):
            f.sub_opt("$v:ident.into()", "$v as " + ("i128" if n[0] == "i" else "u128") if n in NUM else "$v" if n in ("bool", "char") else "to_text($v)")
        return go

    simple = [(n, "Src::" + n.upper() + "(v)", "D02 D05") for n in NUM] + [("bool", "Src::Bool(v)", "D05"), ("char", "Src::Char(v)", "D05"), ("str", "Src::Str(v@)", "D05"), ("string", "Src::Str(v@)", "D05")]
    emit("PrimitiveVisitor", s, [(n, f"made(r, prim_from({d})) /*@ {t} D08 */", "", prim(n)) for n, d, t in simple])

    SEQ = MAP = "let ghost __all = __p.all();"

    def each_byte(f):
        f.sub("$v:ident.iter().map(|&$a:ident| $e).collect()", "({ let __r = vec_map_slice($v, |__a: &u8| -> (r: Value<()>) ensures r.value == ValueDef::<()>::Primitive(Primitive::U128(*__a as u128)) { let $a = *__a; $e }); proof { assert(gvs(__r@) =~= byte_vals(v@)); } __r })")

    def seq_loop(f):
        f.sub("while let Some($x:ident) = $e:ident.next_element()? {", "while let Some($x) = $e.next_element()? { ")
        f.loop(0, "invariant_except_break seq.pos() == values@.len(),\n invariant __p.all() == __all, seq.all() == __all, 0 <= seq.pos() <= __all.len(), are_vals(__all, vals_from(__all)), vals_ok(__all, values@),\n ensures values@.len() == __all.len(),\n decreases __all.len() - seq.pos()")
        f.sub("Ok(Composite::Unnamed(values))", "({ proof { vals_made(__all, values@); } Ok(Composite::Unnamed(values)) })")

    def map_loop(f, n=0, more=""):
        f.loop(n, "invariant_except_break map.pos() == values@.len(),\n invariant __p.all() == __all, map.all() == __all, 0 <= map.pos() <= __all.len(), !map.open(), " + more + "are_entries(__all, entries_from(__all)), entries_ok(__all, values@),\n ensures values@.len() == __all.len(),\n decreases __all.len() - map.pos()")
        f.sub_opt("Ok(Composite::Named(values))", "({ proof { entries_made(__all, values@); } Ok(Composite::Named(values)) })")
        f.sub_opt("Ok(ValueDef::Composite(Composite::Named(values)))", "({ proof { entries_made(__all, values@); } Ok(ValueDef::Composite(Composite::Named(values))) })")

    emit("CompositeVisitor", s, [
        ("bytes", "made(r, comp_from(Src::Bytes(v@))) /*@ D08 */", BU, each_byte),
        ("unit", "made(r, comp_from(Src::Unit)) /*@ D05 D08 */", BU, lambda f: None),
        ("newtype_struct", "made(r, comp_from(Src::Newtype(Box::new(deserializer.src())))) /*@ D02 D08 */", BU, lambda f: None),
        ("seq", "made(r, comp_from(Src::Seq(__p.all()))) /*@ D02 D05 D06 D08 */", BU + SEQ, seq_loop),
        ("map", "made(r, comp_from(Src::Map(__p.all()))) /*@ D02 D05 D06 D08 */", BU + MAP, map_loop),
    ])

    def enum(f):
        f.sub_opt("use serde::de::VariantAccess;", "")
        f.sub_opt("$e.and_then(|($n:ident, $v:ident)| $b:rest)", "(match $e { Ok(($n, $v)) => $b, Err(__e) => Err(__e) })")

    def by_name(f):
        f.sub_opt("map.next_key::<String>()", "map.next_key::<String>()")
        f.sub("match &*$k:ident { $a:tok => { $x } $c:tok => { $y } $o:ident => $z, }", "if text_is(&$k, $a) { $x } else if text_is(&$k, $c) { $y } else { let $o = &$k; $z }")
        f.loop(0, VLOOP)

    emit("VariantVisitor", s, [
        ("enum", "made(r, var_from(Src::Enum(Box::new(data.name()), Box::new(data.content())))) /*@ D05 D06 D08 */", BU, enum),
        ("some", "made(r, var_from(Src::Some(Box::new(deserializer.src())))) /*@ D08 */, match val_from(deserializer.src()) { Some(v) => r is Ok && gc(r->Ok_0.values) == GC::Unnamed(seq![v]), None => r is Err } /*@ D02 */", BU, lambda f: None),
        ("none", "made(r, var_from(Src::None)) /*@ D08 */", BU, lambda f: None),
        ("map", "no_repeats(__p.all()) ==> made(r, var_from(Src::Map(__p.all()))) /*@ D06 D08 */", BU + MAP + "proof { name_is_not_values(); }", by_name),
    ])

    def delegate(f):
        m = re.search(r"\bv\s*:\s*([^,)]+?)\s*\)", f.sig)
        if m and m.group(1) not in NUM:
            # a cast to the type that it has
            f.sub_opt("(v as " + m.group(1) + ")", "(v)")
        f.sub_opt("bitvec_helpers::", "")
        f.sub_opt("$a:ident.$f:ident($x).map(ValueDef::$k:ident)", "(match $a.$f($x) { Ok(__x) => Ok(ValueDef::$k(__x)), Err(__e) => Err(__e) })")

    emit("ValueDefVisitor", s, [(n, f"made(r, val_from({d})) /*@ {t} D08 */", BU, delegate) for n, d, t in simple] + [
        ("bytes", "made(r, val_from(Src::Bytes(v@))) /*@ D08 */", BU, delegate),
        ("none", "made(r, val_from(Src::None)) /*@ D08 */", BU, delegate),
        ("unit", "made(r, val_from(Src::Unit)) /*@ D05 D08 */", BU, delegate),
        ("some", "made(r, val_from(Src::Some(Box::new(deserializer.src())))) /*@ D08 */, match val_from(deserializer.src()) { Some(v) => r is Ok && ({ let g = gd(r->Ok_0); g is Var && g->Var_1 == GC::Unnamed(seq![v]) }), None => r is Err } /*@ D02 */", BU, delegate),
        ("newtype_struct", "made(r, val_from(deserializer.src())) /*@ D02 D08 */", BU, delegate),
        ("seq", "made(r, val_from(Src::Seq(__p.all()))) /*@ D02 D05 D06 D08 */", BU, delegate),
        ("map", "made(r, val_from(Src::Map(__p.all()))) /*@ D02 D05 D06 D08 */", BU, delegate),
        ("enum", "made(r, val_from(Src::Enum(Box::new(data.name()), Box::new(data.content())))) /*@ D02 D05 D06 D08 */", BU, delegate),
    ])
    m = find_all(h.text, "static BITVEC_SERDE_IDENT: &str = $s:tok;")
    if len(m) != 1:
        raise LostAnchor("BITVEC_SERDE_IDENT")

    def marked(f):
        f.sub("$k:ident == BITVEC_SERDE_IDENT", "text_is(&$k, " + m[0][2]["s"] + ")")
        f.sub("for $b:ident in $v:ident {", "let ghost __bits = $v@; for $b in __it: $v {")
        f.loop(0, "invariant __it.seq() == __bits, bitvec.bits() == __bits.take(__it.index() as int),")
        f.sub("bitvec.push($x);", "bitvec.push($x); proof { assert(__bits.take(__it.index() + 1) =~= __bits.take(__it.index() as int).push(__bits[__it.index() as int])); }")
        f.sub("Ok(ValueDef::BitSequence(bitvec))", "({ proof { assert(__bits.take(__bits.len() as int) =~= __bits); } Ok(ValueDef::BitSequence(bitvec)) })")
        f.sub("values.push(($k:ident, map.next_value()?));", "values.push(($k, map.next_value()?)); let ghost __h = values@;")
        map_loop(f, 1, "__all.len() > 0, text_from(__all[0].0) is Some, text_from(__all[0].0) != Some(mark()), ")

    emit("MapOrBitSeqVisitor", h, [("map", "made(r, val_from(Src::Map(__p.all()))) /*@ D02 D05 D06 D08 */", BU + MAP, marked)])
