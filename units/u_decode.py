"""scale_impls/decode.rs: bytes to values, the plain decoder (S01, S03, S09, S11)."""
import re
from units import lib_value, lib_scale, lib_decode, u_value
from units.lib_decode import expand_macro
from vf.rust import LostAnchor
PROPS = ["S01", "S03", "S04", "S05", "S09", "S11"]
ALSO = {"S01": ["S04", "S05"], "S03": ["S04", "S05"]}  # agreement and the round trip are lemmas over these
FN_PROPS = {"decode_as_fields": ["S11"], "decode_composite_as_fields": ["S11"], "visit_composite": ["S03", "S09"], "visit_str": ["S03"], "visit_bitsequence": ["S03"],
            "decode_value_as_type": ["S01", "S03"], "decode_as_type": ["S01", "S03"], **{"visit_" + n: ["S01"] for n in "bool char u8 u16 u32 u64 u128 u256 i8 i16 i32 i64 i128 i256".split()},
            **{"visit_" + n: ["S03"] for n in "sequence tuple array variant".split()}, "map_context": [], "remove_context": []}

GLUE = r"""
pub broadcast axiom fn str_into(s: &str) ensures #[trigger] into_text(s) == s@;
pub broadcast axiom fn string_into(s: String) ensures #[trigger] into_text(s) == s@;
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body]
pub fn from_bits(e: BitErr) -> (r: DecodeError) ensures r == derr(DErr::Bits(e)) { unimplemented!() }

// the context made from a type id
pub trait ContextFromTypeId { type Output; spec fn ctx(id: TypeId) -> Self::Output;
    fn context_from_type_id(type_id: &TypeId) -> (r: Self::Output) ensures r == Self::ctx(*type_id); }
pub open spec fn ctxf<F: ContextFromTypeId>() -> spec_fn(TypeId) -> F::Output { |id: TypeId| F::ctx(id) }
pub struct EmptyContext;
pub struct TypeIdContext;
"""

# what this visitor's results are
SAYS = lib_decode.Says("plainly()", "denotes({x}, {t}, ctxf::<F>())", "{x} == {e}")
ITEMS = f"""
// each item is decoded with a new visitor
impl<'a> Items<'a> {{
    #[verifier::external_body]
    pub fn decode_item<F: ContextFromTypeId>(&mut self, visitor: DecodeValueVisitor<F>) -> (r: Option<Result<Value<F::Output>, DecodeError>>)
        {SAYS.decode_item()}
    {{ unimplemented!() }}
}}
#[verifier::external_body]
pub fn decode_with_visitor<F: ContextFromTypeId>(data: &mut &[u8], ty_id: TypeId, types: &Registry, visitor: DecodeValueVisitor<F>) -> (r: Result<Value<F::Output>, DecodeError>)
    {SAYS.decode_with_visitor("false")}
{{ unimplemented!() }}
""" + r"""
// one round of decoding items
pub proof fn round(i: Items<'_>, acc: Seq<Tree>, cfg: Cfg)
    requires i.ok(), i.left().len() > 0
    ensures match dec(i.reg(), i.bytes(), i.left()[0].id, i.cpt(), cfg) { Ok((t, rest)) => prepend(acc, i.rest(cfg)) == prepend(acc.push(t), dec_items(i.reg(), rest, ids(i.left().skip(1)), i.cpt(), cfg, i.below())), Err(e) => i.rest(cfg) == Err::<(Seq<Tree>, Seq<u8>), DecodeError>(e) }
{
    i.unfold(cfg);
    match dec(i.reg(), i.bytes(), i.left()[0].id, i.cpt(), cfg) { Ok((t, rest)) => {
        match dec_items(i.reg(), rest, ids(i.left().skip(1)), i.cpt(), cfg, i.below()) { Ok((us, after)) => { assert(acc + (seq![t] + us) =~= acc.push(t) + us); } Err(e) => {} }
    } Err(e) => {} }
}
"""

ERASE = r"""
// dropping contexts that are () already
pub proof fn erase_v(a: Value<()>, b: Value<()>, t: Tree, g: spec_fn((), ()) -> bool) requires mc_value(a, b, g), denotes(a, t, ctxf::<EmptyContext>()) ensures denotes(b, t, ctxf::<EmptyContext>()) decreases a, 1nat
{ match (a.value, b.value, t.def) { (ValueDef::Composite(x), ValueDef::Composite(y), TDef::Comp(c)) => { erase_c(x, y, c, g); } (ValueDef::Variant(x), ValueDef::Variant(y), TDef::Var(n, c)) => { erase_c(x.values, y.values, c, g); } _ => {} } }
pub proof fn erase_c(a: Composite<()>, b: Composite<()>, t: TComp, g: spec_fn((), ()) -> bool) requires mc_comp(a, b, g), denotes_comp(a, t, ctxf::<EmptyContext>()) ensures denotes_comp(b, t, ctxf::<EmptyContext>()) decreases a, 0nat
{ match (a, b, t) {
    (Composite::Named(x), Composite::Named(y), TComp::Named(w)) => { assert forall|i: int| 0 <= i < y@.len() implies denotes_item(#[trigger] y@[i], w[i], ctxf::<EmptyContext>()) by { assert(decreases_to!(x => x[i])); assert(mc_item(x@[i], y@[i], g)); assert(denotes_item(x@[i], w[i], ctxf::<EmptyContext>())); erase_v(x@[i].1, y@[i].1, w[i].1, g); } }
    (Composite::Unnamed(x), Composite::Unnamed(y), TComp::Unnamed(w)) => { assert forall|i: int| 0 <= i < y@.len() implies denotes(#[trigger] y@[i], w[i], ctxf::<EmptyContext>()) by { assert(decreases_to!(x => x[i])); assert(mc_value(x@[i], y@[i], g)); erase_v(x@[i], y@[i], w[i], g); } }
    _ => {} } }
"""

PATHS = (("&mut scale_decode::visitor::types::Sequence<$x>", "&mut Items<'_>"), ("&mut scale_decode::visitor::types::Tuple<$x>", "&mut Items<'_>"), ("&mut scale_decode::visitor::types::Array<$x>", "&mut Items<'_>"),
         ("&mut scale_decode::visitor::types::Composite<$x>", "&mut Items<'_>"), ("&mut scale_decode::visitor::types::Variant<$x>", "&mut VariantItems<'_>"),
         ("&mut scale_decode::visitor::types::BitSequence<$x>", "&mut BitItems<'_>"), ("&mut scale_decode::visitor::types::Str<$x>", "&mut StrItem<'_>"))


def sig(f, val, err):
    for p in (("<'scale, 'info>", ""), ("<'scale, 'resolver>", ""), ("<'info>", ""), *PATHS, ("R::TypeId", "TypeId"), ("TypeIdFor<Self>", "TypeId"), ("scale_decode::visitor::TypeIdFor<Self>", "TypeId"),
              ("Self::Value<$x>", val), ("Self::Value", val), ("Self::Error", err)):
        f.sub_sig(*p, minimum=0)
    f.sub_sig("-> Result<$x, $y>", "-> (r: Result<$x, $y>)")
    return f


CAP = "with_capacity_at_most($e, Ghost(if {v}.in_type() {{ Some({v}.all().len()) }} else {{ None }}))"


def clean(f, v="value"):
    f.sub_opt("$a.min($b)", "min_usize($a, $b)")
    f.sub_opt("Vec::with_capacity($e)", CAP.format(v=v))
    f.sub_opt("DecodeValueVisitor::<R, F>::new()", "DecodeValueVisitor::<F>::new()").sub_opt("<R, F>", "<F>")
    f.sub_opt("$e.to_owned()", "$e.to_string()")
    return f


LOOP = """let ghost mut __acc: Seq<Tree> = Seq::empty(); let ghost mut __prev = *$o; proof { match __prev.rest(plainly()) { Ok((__ts, __r)) => { assert(Seq::<Tree>::empty() + __ts =~= __ts); } Err(_) => {} } }
 while let Some($v) = $o.decode_item($x) { proof { round(__prev, __acc, plainly()); __prev.unfold(plainly()); match dec(__prev.reg(), __prev.bytes(), __prev.left()[0].id, __prev.cpt(), plainly()) { Ok((t, rest)) => { __acc = __acc.push(t); } Err(_) => {} } __prev = *$o; }"""
INV = """invariant __prev == *{v}, {v}.ok(), {v}.same(old({v})), __acc.len() == {v}.all().len() - {v}.left().len(), prepend(__acc, __prev.rest(plainly())) == old({v}).rest(plainly()), {more}
    ensures {v}.left().len() == 0 decreases {v}.left().len()"""
AS_LIST = "old(value).rest(plainly()) == dec_list(old(value).reg(), old(value).bytes(), ids(old(value).all()), old(value).cpt(), plainly(), old(value).below()), "
UNN = "vals@.len() == __acc.len(), forall|i: int| 0 <= i < vals@.len() ==> denotes(#[trigger] vals@[i], __acc[i], ctxf::<F>())"
NAM = "vals@.len() == __acc.len(), named_fields(old({v}).all()), (match name {{ Some(n) => {v}.left().len() > 0 && {v}.left()[0].name is Some && n@ == {v}.left()[0].name->Some_0, None => {v}.left().len() == 0 }}), forall|i: int| 0 <= i < vals@.len() ==> denotes_item(#[trigger] vals@[i], (old({v}).all()[i].name->Some_0, __acc[i]), ctxf::<F>())"


def loops(f, v="value"):
    f.sub("while let Some($v:ident) = $o:ident.decode_item($x) {", LOOP)
    return f


def build(b):
    v = lib_value.types(b)
    b.emit("use vstd::utf8::*;\nuse vstd::string::*;\n")
    b.emit(lib_scale.REGISTRY)
    b.emit(lib_decode.NUM)
    b.emit(lib_decode.BYTES)
    b.emit(lib_decode.SPEC)
    b.emit(lib_decode.ITEMS)
    b.emit(lib_value.INTO)
    u_value.sec_map_context(b, v)
    b.emit(GLUE)
    d = b.src("src/scale_impls/decode.rs")
    for n, spec, out in (("EmptyContext", "()", "()"), ("TypeIdContext", "id", "TypeId")):
        f = d.find_fn("context_from_type_id", within=f"ContextFromTypeId<TypeId> for {n}")
        if "->" in f.sig:
            f.sub_sig("-> TypeId", "-> (r: TypeId)")
        b.emit(f"impl ContextFromTypeId for {n} {{ type Output = {out}; open spec fn ctx(id: TypeId) -> {out} {{ {spec} }}")
        b.fn(f, f"{n}::context_from_type_id")
        b.emit("}")
    b.emit("pub struct DecodeValueVisitor<F> { f: core::marker::PhantomData<F> }\nimpl<F> DecodeValueVisitor<F> { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }")
    b.emit(ITEMS)
    b.emit(ERASE)
    b.consts(d)

    # constructors
    b.emit("impl Primitive {")
    for n, var in (("u128", "U128"), ("i128", "I128")):
        b.fn(v.find_fn(n, within="impl Primitive").sub_sig("-> Primitive", "-> (r: Primitive)").contract(f"ensures r == Primitive::{var}(val)"), f"Primitive::{n}")
    b.emit("}\nimpl Value<()> {")
    for n, var in (("bool", "Bool"), ("char", "Char"), ("u128", "U128"), ("i128", "I128")):
        b.fn(v.find_fn(n, within="impl Value<()>").sub_sig("-> Value<()>", "-> (r: Value<()>)").contract(f"ensures r.value == ValueDef::<()>::Primitive(Primitive::{var}(val))"), f"Value::{n}")
    f = v.find_fn("string", within="impl Value<()>").sub_sig("-> Value<()>", "-> (r: Value<()>)").sub_opt("val.into()", "into_string(val)")
    b.fn(f.contract("ensures r.value is Primitive, pt(r.value->Primitive_0) == PT::Str(into_text(val))"), "Value::string")
    b.emit("}")

    # a struct's or variant's fields
    f = d.find_fn("visit_composite", within="")
    f.sub_sig("<R, F>", "<F>").sub_sig("R: TypeResolver, F: ContextFromTypeId<R::TypeId>,", "F: ContextFromTypeId,")
    for p in PATHS:
        f.sub_sig(*p, minimum=0)
    f.sub_sig("-> Result<$x, DecodeError>", "-> (r: Result<$x, DecodeError>)")
    loops(clean(f))
    f.prelude("broadcast use vstd::seq_lib::group_seq_properties; proof { assert(old(value).all().skip(0) =~= old(value).all()); }") if 0 else None
    f.loop(0, INV.format(v="value", more="old(value).in_type(), " + NAM.format(v="value")), 2)
    f.loop(1, INV.format(v="value", more="old(value).in_type(), " + UNN), 2)
    b.fn(f.contract("""requires old(value).fresh(), old(value).in_type()
        ensures final(value).same(old(value)), final(value).ok(), final(value).left().len() == 0,
            match old(value).rest(plainly()) { Ok((ts, rest)) => r is Ok && denotes_comp(r->Ok_0, gather(old(value).all(), ts), ctxf::<F>()) && final(value).bytes() == rest, Err(e) => r is Err && r->Err_0 == e } /*@ S03 */"""), "visit_composite (free function)")

    b.emit("impl<F: ContextFromTypeId> DecodeValueVisitor<F> {")
    W = "Visitor for DecodeValueVisitor"
    V, E = "Value<F::Output>", "DecodeError"
    MC = "$e.map_context(|_| $g)"
    MR = """{ let __p = $e; let __r = __p.map_context(|__c: ()| -> (r: F::Output) ensures r == F::ctx(type_id) { $g });
        proof { let g = choose|g: spec_fn((), F::Output) -> bool| #[trigger] mc_value(__p, __r, g) && (forall|x: (), y: F::Output| #[trigger] g(x, y) ==> y == F::ctx(type_id)); assert(g(__p.context, __r.context)); } __r }"""

    def prim(n, val):
        f = sig(d.find_fn("visit_" + n, within=W), V, E)
        f.sub_opt(MC, MR).sub_opt("F::context_from_type_id", "F::context_from_type_id")
        b.fn(clean(f).contract(f"ensures {SAYS.prim(val)} /*@ S01 */"), f"visit_{n}")

    def shows(kind):
        """the contract of scale_decode's visitor"""
        req, d, p, more = lib_decode.VISITS[kind]()
        return f"requires {req}\n ensures {SAYS.gives(d, kind, p)} /*@ S03 */,\n {more}"

    prim("bool", "PT::Bool(value)")
    prim("char", "PT::Char(value)")
    for n in ("u128", "u8", "u16", "u32", "u64"):
        prim(n, "PT::U128(value as u128)")
    for n in ("i128", "i8", "i16", "i32", "i64"):
        prim(n, "PT::I128(value as i128)")
    prim("u256", "PT::U256(value@)")
    prim("i256", "PT::I256(value@)")
    for n in ("sequence", "tuple", "array"):
        f = expand_macro(d, sig(d.find_fn("visit_" + n, within=W), V, E), "to_unnamed_composite")
        loops(clean(f)).loop(0, INV.format(v="value", more=AS_LIST + UNN), 1)
        f.prelude("proof { assert(" + AS_LIST.rstrip(", ").replace("old(value)", "value") + "); }")
        b.fn(f.contract(shows("list")), f"visit_{n}")
    f = sig(d.find_fn("visit_bitsequence", within=W), V, E)
    f.sub_opt("($x:ident?)", "(match $x { Ok(__x) => __x, Err(__e) => { return Err(from_bits(__e)); } })")
    b.fn(f.contract(shows("bits")), "visit_bitsequence")
    f = sig(d.find_fn("visit_str", within=W), V, E).sub_opt(MC, MR).prelude("broadcast use {str_into, string_into};")
    b.fn(clean(f).contract(shows("str")), "visit_str")
    f = clean(sig(d.find_fn("visit_variant", within=W), V, E))
    b.fn(f.contract(shows("variant")), "visit_variant")
    f = clean(sig(d.find_fn("visit_composite", within=W), V, E))
    b.fn(f.contract(shows("composite")), "visit_composite")
    b.emit("}")

    # ---- entry points
    def entry(f, who):
        for p in (("<'resolver, R: TypeResolver>", "<'resolver>"), ("<'resolver, R>", "<'resolver>"), ("<R>", ""), ("where R: TypeResolver, R::TypeId: Clone,", ""), ("R::TypeId", "TypeId"), ("types: &'resolver R", "types: &'resolver Registry"), ("types: &R", "types: &Registry"),
                  ("&mut dyn FieldIter<'resolver, TypeId>", "&mut FieldIter<'resolver>"), ("input: &mut &[u8]", "input: &mut &'resolver [u8]"), ("scale_decode::Error", "DecodeError"), ("crate::Value", "Value"), ("crate::Composite", "Composite")):
            f.sub_sig(*p, minimum=0)
        f.sub_sig("-> Result<$x, $y>", "-> (r: Result<$x, $y>)")
        f.sub_opt("scale_decode::visitor::decode_with_visitor", "decode_with_visitor").sub_opt("DecodeValueVisitor::<R, $c>::new()", "DecodeValueVisitor::<$c>::new()")
        f.sub_opt("scale_decode::visitor::types::Composite::new(core::iter::empty(), input, $e)", "Items::new((), *input, $e)").sub_opt("visit_composite::<R, $c>", "visit_composite::<$c>")
        return f

    f = entry(d.find_fn("decode_value_as_type", within=""), "")
    b.fn(f.contract("""requires founded(*types)
        ensures match dec(*types, old(data)@, ty_id, false, plainly()) { Ok((t, rest)) => r is Ok && denotes(r->Ok_0, t, ctxf::<TypeIdContext>()) && final(data)@ == rest, Err(e) => r is Err && r->Err_0 == e } /*@ S01 S03 */"""))
    # by a list of fields: as the struct with these fields
    BYF = """requires founded(*types), old(fields).left().len() <= usize::MAX
        ensures match dec_fields(*types, old(input)@, old(fields).left(), false, plainly(), types.top()) {{ Ok((ts, rest)) => r is Ok && {den} && final(input)@ == rest, Err(e) => r is Err }} /*@ S11 */"""
    f = entry(d.find_fn("decode_composite_as_fields", within=""), "")
    b.fn(f.contract(BYF.format(den="denotes_comp(r->Ok_0, gather(old(fields).left(), ts), ctxf::<TypeIdContext>())")))
    b.emit("impl Composite<()> {")
    f = entry(d.find_fn("decode_as_fields", within="DecodeAsFields for Composite"), "").sub_sig("Result<Self", "Result<Composite<()>", minimum=0)
    f.sub_opt("$v:ident.map_err(From::from).map(|$x:ident| $y:ident.map_context(|_| {}))", """(match $v { Ok($x) => { let ghost __g = $y; let __r: Composite<()> = $y.map_context(|_c: ()| -> (r: ()) {}); proof { let g = choose|g: spec_fn((), ()) -> bool| #[trigger] mc_comp(__g, __r, g); if __pre is Ok { erase_c(__g, __r, gather(__fs, (__pre->Ok_0).0), g); } } Ok(__r) } Err(__e) => Err(__e) })""")
    f.prelude("let ghost __fs = fields.left(); let ghost __pre = dec_fields(*types, input@, __fs, false, plainly(), types.top());")
    b.fn(f.contract(BYF.format(den="denotes_comp(r->Ok_0, gather(old(fields).left(), ts), ctxf::<EmptyContext>())")), "Composite::decode_as_fields")
    b.emit("}\nimpl Value<()> {")
    f = entry(d.find_fn("decode_as_fields", within="DecodeAsFields for Value"), "").sub_sig("Result<Self", "Result<Value<()>", minimum=0)
    b.fn(f.contract(BYF.format(den="r->Ok_0.value is Composite && denotes_comp(r->Ok_0.value->Composite_0, gather(old(fields).left(), ts), ctxf::<EmptyContext>())")), "Value::decode_as_fields")
    b.emit("}\npub mod crate_scale_impls { }")
    l = b.src("src/lib.rs")
    f = entry(l.find_fn("decode_as_type", within=None, nth=0), "").sub_sig("fn decode_as_type", "fn lib_decode_as_type").sub_opt("crate::scale_impls::decode_value_as_type", "decode_value_as_type")
    b.fn(f.contract("""requires founded(*types)
        ensures match dec(*types, old(data)@, ty_id, false, plainly()) { Ok((t, rest)) => r is Ok && denotes(r->Ok_0, t, ctxf::<TypeIdContext>()) && final(data)@ == rest, Err(e) => r is Err && r->Err_0 == e } /*@ S01 S03 */"""), "scale::decode_as_type")
    f = entry(l.find_fn("decode_as_fields", within=None, nth=0), "").sub_sig("fn decode_as_fields", "fn lib_decode_as_fields").sub_opt("crate::scale_impls::decode_composite_as_fields", "decode_composite_as_fields")
    b.fn(f.contract(BYF.format(den="denotes_comp(r->Ok_0, gather(old(fields).left(), ts), ctxf::<TypeIdContext>())")), "scale::decode_as_fields")
