"""serde_impls/serialize.rs and serialize_bitvec: values to any serializer (D01, D06)."""
from units import lib_value, lib_serde
from vf.rust import LostAnchor, find_all
PROPS = ["D01", "D06"]

PROOF = r"""
// the data of real values, one level at a time
pub broadcast proof fn map_data<T>(v: Seq<(String, Value<T>)>) requires v.len() <= usize::MAX ensures #[trigger] comp_data(GC::Named(gis(v))) == Data::Map(Some(v.len() as usize), v.map_values(|p: (String, Value<T>)| (Data::Str(p.0@), data_of(gv(p.1)))))
{ assert(comp_data(GC::Named(gis(v)))->Map_1 =~= v.map_values(|p: (String, Value<T>)| (Data::Str(p.0@), data_of(gv(p.1))))); }
pub broadcast proof fn seq_data<T>(v: Seq<Value<T>>) requires v.len() <= usize::MAX ensures #[trigger] comp_data(GC::Unnamed(gvs(v))) == Data::Seq(Some(v.len() as usize), v.map_values(|p: Value<T>| data_of(gv(p))))
{ assert(comp_data(GC::Unnamed(gvs(v)))->Seq_1 =~= v.map_values(|p: Value<T>| data_of(gv(p)))); }
"""
BU = "broadcast use map_data, seq_data, gv_is, gc_is;"


# whatever happens next decides about all of it
SEED = "let mut $m = $e; let ghost __m = $m; proof { let w = WHOLE; let p = $m.promise(); assert(p(w) == (serializer.gives())(DATA)); assert(w.is_prefix_of(w)); if w.len() > 0 { assert($m.$acc().push(w[0]) =~= w.take(1)); assert(w.take(1).is_prefix_of(w)); } if w.len() == 2 { assert($m.$acc().push(w[0]).push(w[1]) =~= w); } }"
SEED = {k: SEED.replace("$m.$acc", "$m." + a) for k, a in (("map", "entries"), ("seq", "elements"))}


def conv(f):
    f.sub_opt("let $n:ident: Result<$t, _> = $v:ident.try_into();", "let $n: Result<$t, OutOfRange> = $v.conv_into();")
    f.sub_opt("<$t:ident>::try_from($v:ident)", "Conv::<$t>::conv_into($v)")
    f.sub_opt("$t:ident::try_from($v:ident)", "Conv::<$t>::conv_into($v)")
    f.sub_opt("TryInto::<$t:ident>::try_into($v:ident)", "Conv::<$t>::conv_into($v)")
    if "try_" in f.body:
        raise LostAnchor(f"{f.name}: another way to convert integers")


def build(b):
    lib_value.types(b)
    b.emit("use vstd::string::*;\n")
    for t in (lib_serde.VALUES, lib_serde.DATA, lib_serde.OUT_OF, lib_serde.CONV, lib_serde.SERIALIZERS, lib_serde.serialize_impls(), PROOF):
        b.emit(t)
    for t, d in (("Value<T>", "data_of(gv(*self))"), ("ValueDef<T>", "data_of(gd(*self))"), ("Composite<T>", "comp_data(gc(*self))"), ("Variant<T>", "variant_data(self.name@, comp_data(gc(self.values)))"), ("Primitive", "prim_data(gp(*self))")):
        b.emit(f"impl{'<T>' if '<' in t else ''} HasData for {t} {{ open spec fn data(&self) -> Data {{ {d} }} }}")
    h = b.src(lib_serde.D + "bitvec_helpers.rs")
    m = find_all(h.text, "static BITVEC_SERDE_IDENT: &str = $s:tok;")
    if len(m) != 1:
        raise LostAnchor("BITVEC_SERDE_IDENT")
    f = h.find_fn("serialize_bitvec").result().sub_sig("where S: Serializer,", "", minimum=0).sub_sig("<S>", "<S: Serializer>", minimum=0)
    f.sub("BITVEC_SERDE_IDENT", m[0][2]["s"])
    f.prelude("proof { reveal_strlit(\"__bitvec__values__\"); }")
    f.sub("let mut map = $e;", SEED["map"].replace("$m", "map").replace("WHOLE", "data_of(GV::Bits(seq.bits()))->Map_1").replace("DATA", "data_of(GV::Bits(seq.bits()))"))
    b.fn(f.contract("ensures r == (serializer.gives())(data_of(GV::Bits(seq.bits()))) /*@ D01 */"))
    s = b.src_expanded(lib_serde.D + "serialize.rs")
    for t in ("Value<T>", "ValueDef<T>", "Composite<T>", "Primitive", "Variant<T>"):
        f = s.find_fn("serialize", within=f"Serialize for {t}").result().sub_sig("where S: Serializer,", "", minimum=0).sub_sig("<S>", "<S: Serializer>", minimum=0)
        f.sub_opt("bitvec_helpers::", "")
        conv(f)
        pre = BU
        if t == "Composite<T>":
            whole_n = "vals@.map_values(|p: (String, Value<T>)| (Data::Str(p.0@), data_of(gv(p.1))))"
            whole_u = "vals@.map_values(|p: Value<T>| data_of(gv(p)))"
            f.sub("let mut map = $e;", SEED["map"].replace("$m", "map").replace("WHOLE", "WHOLE_N").replace("DATA", "self.data()"))
            f.sub("let mut seq = $e;", SEED["seq"].replace("$m", "seq").replace("WHOLE", "WHOLE_U").replace("DATA", "self.data()"))
            f.sub_opt("for ($k:ident, $w:ident) in $e:ident {", "for __kv in __it: $e.iter() { let ($k, $w) = __kv; proof { broadcast use map_data, gc_is; let w = WHOLE_N; assert(w.take(__it.index() + 1).is_prefix_of(w)); assert((map.promise())(w) == (serializer.gives())(self.data())); assert(w.take(__it.index() + 1) =~= WHOLE_N.take(__it.index() as int).push(WHOLE_N[__it.index() as int])); }")
            f.sub_opt("for $w:ident in $e:ident {", "for $w in __it: $e.iter() { proof { broadcast use seq_data, gc_is; let w = WHOLE_U; assert(w.take(__it.index() + 1).is_prefix_of(w)); assert((seq.promise())(w) == (serializer.gives())(self.data())); assert(w.take(__it.index() + 1) =~= WHOLE_U.take(__it.index() as int).push(WHOLE_U[__it.index() as int])); }")
            ls = f.loops()
            if len(ls) != 2:
                raise LostAnchor("Composite::serialize has other loops")
            for i, (kind, acc, var) in ((1, ("WHOLE_U", "elements", "seq")), (0, ("WHOLE_N", "entries", "map"))):
                f.loop(i, f"invariant __it.seq().map_values(|p: &{'(String, Value<T>)' if i == 0 else 'Value<T>'}| *p) == vals@, vals@.len() <= usize::MAX, *self is {'Named' if i == 0 else 'Unnamed'}, vals == self->{'Named' if i == 0 else 'Unnamed'}_0, {var}.{acc}() == {kind}.take(__it.index() as int), {var}.promise() == __m.promise(), __m.promise() == {'map' if i == 0 else 'seq'}_gives(serializer.gives(), Some(vals@.len() as usize)),")
            f.body = f.body.replace("WHOLE_N", whole_n).replace("WHOLE_U", whole_u)
        b.emit(f"impl{'<T>' if '<' in t else ''} Serialize for {t} {{")
        if t == "Variant<T>":
            f.sub("let mut map = $e;", SEED["map"].replace("$m", "map").replace("WHOLE", "self.data()->Map_1").replace("DATA", "self.data()"))
        b.fn(f.prelude(pre), f"Serialize for {t}")
        b.emit("}")


