"""value_type.rs: changing context (V02), composite accessors and constructors (V03), conversions and accessors (V04)."""
import re
from units import lib_value
from vf.rust import Fn, LostAnchor, find_all
PROPS = ["V02", "V03", "V04"]
FN_PROPS = {}


def sec_map_context(b, v):
    b.emit(
        """
// two values are the same up to context, and each pair of contexts is related by the mapping
pub open spec fn mc_value<T, U>(a: Value<T>, b: Value<U>, f: spec_fn(T, U) -> bool) -> bool decreases a { f(a.context, b.context) && mc_def(a.value, b.value, f) }
pub open spec fn mc_def<T, U>(a: ValueDef<T>, b: ValueDef<U>, f: spec_fn(T, U) -> bool) -> bool decreases a {
    match (a, b) {
        (ValueDef::Composite(x), ValueDef::Composite(y)) => mc_comp(x, y, f),
        (ValueDef::Variant(x), ValueDef::Variant(y)) => mc_variant(x, y, f),
        (ValueDef::BitSequence(x), ValueDef::BitSequence(y)) => x == y,
        (ValueDef::Primitive(x), ValueDef::Primitive(y)) => x == y,
        _ => false,
    }
}
pub open spec fn mc_variant<T, U>(a: Variant<T>, b: Variant<U>, f: spec_fn(T, U) -> bool) -> bool decreases a { a.name == b.name && mc_comp(a.values, b.values, f) }
pub open spec fn mc_comp<T, U>(a: Composite<T>, b: Composite<U>, f: spec_fn(T, U) -> bool) -> bool decreases a {
    match (a, b) {
        (Composite::Named(x), Composite::Named(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> mc_item(#[trigger] x@[i], y@[i], f),
        (Composite::Unnamed(x), Composite::Unnamed(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> mc_value(#[trigger] x@[i], y@[i], f),
        _ => false,
    }
}
pub open spec fn mc_item<T, U>(a: (String, Value<T>), b: (String, Value<U>), f: spec_fn(T, U) -> bool) -> bool decreases a { a.0 == b.0 && mc_value(a.1, b.1, f) }
pub open spec fn rel<T, U, F: FnMut(T) -> U>(f: F) -> spec_fn(T, U) -> bool { |t: T, u: U| f.ensures((t,), u) }
// weakening and composition: what holds for each context after one mapping holds after the other
pub proof fn mc_weaken<T, U>(a: Value<T>, b: Value<U>, f: spec_fn(T, U) -> bool, g: spec_fn(T, U) -> bool)
    requires mc_value(a, b, f), forall|t: T, u: U| #[trigger] f(t, u) ==> g(t, u) ensures mc_value(a, b, g) decreases a, 1nat
{ match (a.value, b.value) {
    (ValueDef::Composite(x), ValueDef::Composite(y)) => { mc_weaken_c(x, y, f, g) }
    (ValueDef::Variant(x), ValueDef::Variant(y)) => { mc_weaken_c(x.values, y.values, f, g) }
    _ => {} } }
pub proof fn mc_weaken_c<T, U>(a: Composite<T>, b: Composite<U>, f: spec_fn(T, U) -> bool, g: spec_fn(T, U) -> bool)
    requires mc_comp(a, b, f), forall|t: T, u: U| #[trigger] f(t, u) ==> g(t, u) ensures mc_comp(a, b, g) decreases a, 0nat
{ match (a, b) {
    (Composite::Named(x), Composite::Named(y)) => { assert forall|i: int| 0 <= i < x@.len() implies mc_item(#[trigger] x@[i], y@[i], g) by { assert(decreases_to!(x => x[i])); assert(mc_item(x@[i], y@[i], f)); mc_weaken(x@[i].1, y@[i].1, f, g); } }
    (Composite::Unnamed(x), Composite::Unnamed(y)) => { assert forall|i: int| 0 <= i < x@.len() implies mc_value(#[trigger] x@[i], y@[i], g) by { assert(decreases_to!(x => x[i])); mc_weaken(x@[i], y@[i], f, g); } }
    _ => {} } }
pub open spec fn then<T, U, W>(f: spec_fn(T, U) -> bool, g: spec_fn(U, W) -> bool) -> spec_fn(T, W) -> bool { |t: T, w: W| exists|u: U| #[trigger] both(f, g, t, u, w) }
pub open spec fn both<T, U, W>(f: spec_fn(T, U) -> bool, g: spec_fn(U, W) -> bool, t: T, u: U, w: W) -> bool { f(t, u) && g(u, w) }
pub proof fn mc_compose<T, U, W>(a: Value<T>, b: Value<U>, c: Value<W>, f: spec_fn(T, U) -> bool, g: spec_fn(U, W) -> bool)
    requires mc_value(a, b, f), mc_value(b, c, g) ensures mc_value(a, c, then(f, g)) decreases a, 1nat
{ assert(then(f, g)(a.context, c.context)) by { assert(both(f, g, a.context, b.context, c.context)); }
  match (a.value, b.value, c.value) {
    (ValueDef::Composite(x), ValueDef::Composite(y), ValueDef::Composite(z)) => { mc_compose_c(x, y, z, f, g) }
    (ValueDef::Variant(x), ValueDef::Variant(y), ValueDef::Variant(z)) => { mc_compose_c(x.values, y.values, z.values, f, g) }
    _ => {} } }
pub proof fn mc_compose_c<T, U, W>(a: Composite<T>, b: Composite<U>, c: Composite<W>, f: spec_fn(T, U) -> bool, g: spec_fn(U, W) -> bool)
    requires mc_comp(a, b, f), mc_comp(b, c, g) ensures mc_comp(a, c, then(f, g)) decreases a, 0nat
{ match (a, b, c) {
    (Composite::Named(x), Composite::Named(y), Composite::Named(z)) => { assert forall|i: int| 0 <= i < x@.len() implies mc_item(#[trigger] x@[i], z@[i], then(f, g)) by { assert(decreases_to!(x => x[i])); assert(mc_item(x@[i], y@[i], f)); assert(mc_item(y@[i], z@[i], g)); mc_compose(x@[i].1, y@[i].1, z@[i].1, f, g); } }
    (Composite::Unnamed(x), Composite::Unnamed(y), Composite::Unnamed(z)) => { assert forall|i: int| 0 <= i < x@.len() implies mc_value(#[trigger] x@[i], z@[i], then(f, g)) by { assert(decreases_to!(x => x[i])); assert(mc_value(y@[i], z@[i], g)); mc_compose(x@[i], y@[i], z@[i], f, g); } }
    _ => {} } }
// a mapping function may be called on every context
pub open spec fn total<T, U, F: FnMut(T) -> U>(f: F) -> bool { forall|t: T| f.requires((t,)) }
// a clone of the mapping function is the mapping function
#[verifier::external_body]
pub fn clone_fn<T, U, F: FnMut(T) -> U>(f: &F) -> (r: F) ensures r == *f { unimplemented!() }
"""
    )
    sigs = dict(F="F: Clone + FnMut(T) -> U,")

    def mk(within, name, rel):
        f = v.find_fn("map_context", within=within)
        f.sub_sig("-> " + name + "<U>", "-> (r: " + name + "<U>)")
        f.sub_sig("F: Clone + FnMut(T) -> U", "F: FnMut(T) -> U")  # Verus has no Clone for closures; clone_fn stands in
        f.sub_opt("f.clone()", "clone_fn::<T, U, F>(&f)")
        f.contract(f"requires total::<T, U, F>(f) ensures {rel}(self, r, rel::<T, U, F>(f)) /*@ V02 */ decreases self")
        return f

    b.emit("impl<T> Value<T> {")
    # the argument is evaluated before the mapping is handed down, as in the source
    f = mk("impl<T> Value<T>", "Value", "mc_value")
    f.sub("f($e)", "f($e)")
    b.fn(f, "Value::map_context")
    rc = v.find_fn("remove_context", within="impl<T> Value<T>")
    rc.sub_sig("-> Value<()>", "-> (r: Value<()>)").sub("|_| ()", "|_c: T| -> (r: ()) { () }")
    rc.sub("self.map_context($e)", """{ let ghost gs = self; let r = self.map_context($e);
        proof { assert(exists|f: spec_fn(T, ()) -> bool| #[trigger] mc_value(gs, r, f)); let f = choose|f: spec_fn(T, ()) -> bool| #[trigger] mc_value(gs, r, f); mc_weaken(gs, r, f, |t: T, u: ()| true); } r }""")
    rc.contract("ensures mc_value(self, r, |t: T, u: ()| true) /*@ V02 */")
    b.fn(rc, "Value::remove_context")
    b.emit("}")
    b.emit("impl<T> ValueDef<T> {")
    b.fn(mk("impl<T> ValueDef<T>", "ValueDef", "mc_def"), "ValueDef::map_context")
    b.emit("}\nimpl<T> Variant<T> {")
    b.fn(mk("impl<T> Variant<T>", "Variant", "mc_variant"), "Variant::map_context")
    b.emit("}\nimpl<T> Composite<T> {")
    f = mk("impl<T> Composite<T>", "Composite", "mc_comp")
    f.sub("let vals = values.into_iter().map(move |($k:ident, $w:ident)| $e).collect();",
          """let ghost gv = values; let ghost src = values@; let mut vals: Vec<(String, Value<U>)> = Vec::new();
             for __p in it: values.into_iter()
                 invariant it.seq() == src, vals@.len() == it.index(), total::<T, U, F>(f), self == Composite::<T>::Named(gv), gv@ == src, forall|i: int| 0 <= i < vals@.len() ==> mc_item(#[trigger] src[i], vals@[i], rel::<T, U, F>(f))
             { assert(__p == gv[it.index() as int]); assert(decreases_to!(self => self->Named_0)); assert(self->Named_0 == gv);  assert(decreases_to!(gv => gv[it.index() as int])); let ($k, $w) = __p; let __n = $e; vals.push(__n); }""")
    f.sub("let vals = values.into_iter().map(move |$w:ident| $e).collect();",
          """let ghost gv = values; let ghost src = values@; let mut vals: Vec<Value<U>> = Vec::new();
             for __p in it: values.into_iter()
                 invariant it.seq() == src, vals@.len() == it.index(), total::<T, U, F>(f), self == Composite::<T>::Unnamed(gv), gv@ == src, forall|i: int| 0 <= i < vals@.len() ==> mc_value(#[trigger] src[i], vals@[i], rel::<T, U, F>(f))
             { assert(__p == gv[it.index() as int]); assert(decreases_to!(self => self->Unnamed_0)); assert(self->Unnamed_0 == gv);  assert(decreases_to!(gv => gv[it.index() as int])); let $w = __p; let __n = $e; vals.push(__n); }""")
    b.fn(f, "Composite::map_context")
    b.emit("}")


def build(b):
    v = lib_value.types(b)
    sec_map_context(b, v)
    sec_accessors(b, v)
    sec_constructors(b, v)
    sec_conversions(b, v)


def maps(f):
    for p in lib_value.MAP_SUBS:
        f.sub_opt(*p)
    return f


def sec_accessors(b, v):
    """Composite::len, is_empty, values, into_values (V03); as_* (V04)"""
    b.emit(lib_value.MAPS)
    b.emit(
        """
pub open spec fn items<T>(c: Composite<T>) -> Seq<Value<T>> { match c { Composite::Named(v) => v@.map_values(|p: (String, Value<T>)| p.1), Composite::Unnamed(v) => v@ } }
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
impl<T> Composite<T> {"""
    )
    b.fn(v.find_fn("len", within="impl<T> Composite<T>").sub_sig("-> usize", "-> (r: usize)").contract("ensures r == items(*self).len() /*@ V03 */"), "Composite::len")
    b.fn(v.find_fn("is_empty", within="impl<T> Composite<T>").sub_sig("-> bool", "-> (r: bool)").contract("ensures r == (items(*self).len() == 0) /*@ V03 */"), "Composite::is_empty")
    # what the returned iterator yields: collected into a list
    f = v.find_fn("values", within="impl<T> Composite<T>")
    f.sub_sig("-> impl ExactSizeIterator<Item = &Value<T>>", "-> (r: Vec<&Value<T>>)")
    f.sub("Either::Left($e)", "{ let r: Vec<&Value<T>> = $e.collect(); proof { assert(derefs(r@) =~= items(*self)); } r }", 1)
    f.sub("Either::Right($e)", "{ let r: Vec<&Value<T>> = $e.collect(); proof { assert(derefs(r@) =~= items(*self)); } r }", 1)
    f.sub_opt(".map(|($k:ident, $w:ident)| $e)", ".map(|__a: &(String, Value<T>)| -> (r: &Value<T>) ensures *r == __a.1 { let ($k, $w) = __a; $e })")
    f.contract("ensures derefs(r@) == items(*self) /*@ V03 */")
    b.fn(maps(f), "Composite::values")
    f = v.find_fn("into_values", within="impl<T> Composite<T>")
    f.sub_sig("-> impl ExactSizeIterator<Item = Value<T>>", "-> (r: Vec<Value<T>>)")
    f.sub("Either::Left($e)", "{ let r: Vec<Value<T>> = $e.collect(); proof { assert(r@ =~= items(self)); } r }", 1)
    f.sub("Either::Right($e)", "{ let r: Vec<Value<T>> = $e.collect(); proof { assert(r@ =~= items(self)); } r }", 1)
    f.sub_opt(".map(|($k:ident, $w:ident)| $e)", ".map(|__a: (String, Value<T>)| -> (r: Value<T>) ensures r == __a.1 { let ($k, $w) = __a; $e })")
    f.contract("ensures r@ == items(self) /*@ V03 */")
    b.fn(maps(f), "Composite::into_values")
    b.emit("}\nimpl Primitive {")
    A = [("as_bool", "bool", "Bool", "b"), ("as_char", "char", "Char", "c"), ("as_u128", "u128", "U128", "n"), ("as_i128", "i128", "I128", "n")]
    for n, t, var, _ in A:
        b.fn(v.find_fn(n, within="impl Primitive").sub_sig(f"-> Option<{t}>", f"-> (r: Option<{t}>)").contract(f"ensures r == (match *self {{ Primitive::{var}(x) => Some(x), _ => None }}) /*@ V04 */"), f"Primitive::{n}")
    b.emit("pub open spec fn str_spec(p: Primitive) -> Option<Seq<char>> { match p { Primitive::String(s) => Some(s@), _ => None } }\npub open spec fn ostr(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }")
    b.fn(v.find_fn("as_str", within="impl Primitive").sub_sig("-> Option<&str>", "-> (r: Option<&str>)").sub_opt("&**$s:ident", "$s.as_str()").contract("ensures Self::ostr(r) == Self::str_spec(*self) /*@ V04 */"), "Primitive::as_str")
    for n, t, var in (("u128", "u128", "U128"), ("i128", "i128", "I128")):
        b.fn(v.find_fn(n, within="impl Primitive").sub_sig("-> Primitive", "-> (r: Primitive)").contract(f"ensures r == Primitive::{var}(val) /*@ V04 */"), f"Primitive::{n}")
    b.emit("}\nimpl<T> Value<T> {")
    for n, t, var, _ in A:
        b.fn(v.find_fn(n, within="impl<T> Value<T>").sub_sig(f"-> Option<{t}>", f"-> (r: Option<{t}>)").contract(f"ensures r == (match self.value {{ ValueDef::Primitive(Primitive::{var}(x)) => Some(x), _ => None }}) /*@ V04 */"), f"Value::{n}")
    b.fn(v.find_fn("as_str", within="impl<T> Value<T>").sub_sig("-> Option<&str>", "-> (r: Option<&str>)").contract("ensures Primitive::ostr(r) == (match self.value { ValueDef::Primitive(p) => Primitive::str_spec(p), _ => None }) /*@ V04 */"), "Value::as_str")
    b.emit("}")


def sec_constructors(b, v):
    b.emit(lib_value.INTO)
    b.emit(
        """
// a composite with exactly these names and values, in this order
pub open spec fn is_named<S, T>(c: Composite<T>, v: Seq<(S, Value<T>)>) -> bool {
    c is Named && c->Named_0@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] c->Named_0@[i]).0@ == into_text(v[i].0) && c->Named_0@[i].1 == v[i].1
}
pub open spec fn is_unnamed<T>(c: Composite<T>, v: Seq<Value<T>>) -> bool { c is Unnamed && c->Unnamed_0@ == v }
impl<T> Composite<T> {"""
    )
    # any iterable of items: specialised to a list
    f = v.find_fn("named", within="impl<T> Composite<T>").sub_sig("Vals: IntoIterator<Item = (S, Value<T>)>", "Vals").sub_sig("<S: Into<String>, Vals>", "<S: Into<String>>").sub_sig("vals: Vals", "vals: Vec<(S, Value<T>)>").sub_sig("-> Self", "-> (r: Self)")
    f.sub("|($n:ident, $w:ident)| ($a, $c)", "|__a: (S, Value<T>)| -> (r: (String, Value<T>)) ensures r.0@ == into_text(__a.0), r.1 == __a.1 { let ($n, $w) = __a; ($a, $c) }")
    f.sub_opt("n.into()", "into_string(n)")
    b.fn(maps(f).contract("ensures is_named(r, vals@) /*@ V03 */"), "Composite::named")
    f = v.find_fn("unnamed", within="impl<T> Composite<T>").sub_sig("<Vals: IntoIterator<Item = Value<T>>>", "").sub_sig("vals: Vals", "vals: Vec<Value<T>>").sub_sig("-> Self", "-> (r: Self)")
    f.sub_opt("$v:ident.into_iter().collect()", "{ let __r: Vec<Value<T>> = $v.into_iter().collect(); proof { assert(__r@ =~= $v@); } __r }")
    b.fn(f.contract("ensures is_unnamed(r, vals@) /*@ V03 */"), "Composite::unnamed")
    b.emit("}\nimpl<T> Variant<T> {")

    def spec(f, k):
        for p in (("where S: Into<String>, K: Into<String>, Vals: IntoIterator<Item = (K, Value<T>)>,", "where S: Into<String>, K: Into<String>,"),
                  ("where S: Into<String>, Vals: IntoIterator<Item = Value<T>>,", "where S: Into<String>,"),
                  ("where S: Into<String>, F: Into<String>, Vals: IntoIterator<Item = (F, Value<()>)>,", "where S: Into<String>, F: Into<String>,"),
                  ("where S: Into<String>, Vals: IntoIterator<Item = (S, Value<()>)>,", "where S: Into<String>,"),
                  ("where S: Into<String>, Vals: IntoIterator<Item = Value<()>>,", "where S: Into<String>,"),
                  ("where Vals: IntoIterator<Item = Value<()>>,", "")):
            f.sub_sig(*p, minimum=0)
        f.sub_sig(", Vals>", ">", minimum=0).sub_sig("<Vals>", "", minimum=0).sub_sig(": Vals", ": " + k)
        f.sub_opt("name.into()", "into_string(name)").sub_opt("val.into()", "into_string(val)")
        return f

    b.fn(spec(v.find_fn("named_fields", within="impl<T> Variant<T>").sub_sig("-> Variant<T>", "-> (r: Variant<T>)"), "Vec<(K, Value<T>)>").contract("ensures r.name@ == into_text(name) && is_named(r.values, fields@) /*@ V03 */"), "Variant::named_fields")
    b.fn(spec(v.find_fn("unnamed_fields", within="impl<T> Variant<T>").sub_sig("-> Variant<T>", "-> (r: Variant<T>)"), "Vec<Value<T>>").contract("ensures r.name@ == into_text(name) && is_unnamed(r.values, fields@) /*@ V03 */"), "Variant::unnamed_fields")
    b.emit("}\nimpl Value<()> {")
    W = "impl Value<()>"
    V0, VN = "Vec<Value<()>>", "Vec<(S, Value<()>)>"

    def g(n, k, post, ret=None):
        f = v.find_fn(n, within=W)
        for r in ("Self", "Value<()>"):
            f.sub_sig("-> " + r, "-> (r: Value<()>)", minimum=0)
        if k:
            spec(f, k)
        b.fn(f.contract(f"ensures {post}"), f"Value::{n}")

    g("named_composite", VN, "r.value is Composite && is_named(r.value->Composite_0, vals@) /*@ V03 */")
    g("unnamed_composite", V0, "r.value is Composite && is_unnamed(r.value->Composite_0, vals@) /*@ V03 */")
    f = v.find_fn("variant", within=W).sub_sig("-> Value<()>", "-> (r: Value<()>)").sub_opt("name.into()", "into_string(name)")
    b.fn(f.contract("ensures r.value is Variant && r.value->Variant_0.name@ == into_text(name) && r.value->Variant_0.values == values /*@ V03 */"), "Value::variant")
    g("named_variant", "Vec<(F, Value<()>)>", "r.value is Variant && r.value->Variant_0.name@ == into_text(name) && is_named(r.value->Variant_0.values, fields@) /*@ V03 */")
    g("unnamed_variant", V0, "r.value is Variant && r.value->Variant_0.name@ == into_text(name) && is_unnamed(r.value->Variant_0.values, fields@) /*@ V03 */")
    g("bit_sequence", None, "r.value == ValueDef::<()>::BitSequence(bits) /*@ V03 V04 */")
    g("primitive", None, "r.value == ValueDef::<()>::Primitive(primitive) /*@ V04 */")
    f = v.find_fn("string", within=W).sub_sig("-> Value<()>", "-> (r: Value<()>)").sub_opt("val.into()", "into_string(val)")
    b.fn(f.contract("ensures Primitive::str_spec(r.value->Primitive_0) == Some(into_text(val)) && r.value is Primitive /*@ V04 */"), "Value::string")
    for n, t, var in (("bool", "bool", "Bool"), ("char", "char", "Char"), ("u128", "u128", "U128"), ("i128", "i128", "I128")):
        g(n, None, f"r.value == ValueDef::<()>::Primitive(Primitive::{var}(val)) /*@ V04 */")
    g("without_context", None, "r.value == value /*@ V03 V04 */")
    # anything that gives bytes: specialised to a byte slice
    f = v.find_fn("from_bytes", within=W).sub_sig("impl AsRef<[u8]>", "&[u8]").sub_sig("-> Value<()>", "-> (r: Value<()>)")
    f.sub_opt("bytes.as_ref()", "bytes").sub("|&$x:ident| $e:rest", "|__a: &u8| -> (r: Value<()>) ensures r.value == ValueDef::<()>::Primitive(Primitive::U128(*__a as u128)) { let $x = *__a; $e }", 1)
    f.sub_sig("bytes: &[u8]", "bytes: &[u8]")
    b.fn(f.contract("""ensures r.value is Composite && r.value->Composite_0 is Unnamed && r.value->Composite_0->Unnamed_0@.len() == bytes@.len(),
        forall|i: int| 0 <= i < bytes@.len() ==> (#[trigger] r.value->Composite_0->Unnamed_0@[i]).value == ValueDef::<()>::Primitive(Primitive::U128(bytes@[i] as u128)) /*@ V04 */"""), "Value::from_bytes")
    b.emit("}\nimpl<T> Value<T> {")
    b.fn(v.find_fn("with_context", within="impl<T> Value<T>").sub_sig("-> Value<T>", "-> (r: Value<T>)").contract("ensures r.value == value, r.context == context /*@ V03 */"), "Value::with_context")
    b.emit("}")


def sec_conversions(b, v):
    """From implementations, as free functions; `.into()` is resolved to the conversion its type selects"""
    def fr(name, src, dst, within, post, subs=(), gen="", pre="", nth=0):
        f = v.find_fn("from", within=within, nth=nth)
        f.sub_sig("fn from", f"fn {name}{gen}").sub_sig("-> Self", f"-> (r: {dst})")
        for s in subs:
            f.sub(*s)
        b.fn(maps(f).contract(f"ensures {post}"), f"{within}::from")

    b.emit(
        """
// the value that an item converts to (its own From implementation)
pub uninterp spec fn into_val<V>(v: V) -> Value<()>;
#[verifier::external_body]
pub fn into_value<V: Into<Value<()>>>(v: V) -> (r: Value<()>) ensures r == into_val(v) { v.into() }
pub open spec fn is_converted<V>(c: Composite<()>, v: Seq<V>) -> bool {
    c is Unnamed && c->Unnamed_0@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] c->Unnamed_0@[i] == into_val(v[i])
}
pub open spec fn is_converted_named<K, V>(c: Composite<()>, v: Seq<(K, V)>) -> bool {
    c is Named && c->Named_0@.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] c->Named_0@[i]).0@ == into_text(v[i].0) && c->Named_0@[i].1 == into_val(v[i].1)
}
"""
    )
    cl = ("|$v:ident| $e:rest", "|$v: V| -> (r: Value<()>) ensures r == into_val($v) { $e }")
    cl2 = ("|($k:ident, $v:ident)| $e:rest", "|__a: (K, V)| -> (r: (String, Value<()>)) ensures r.0@ == into_text(__a.0), r.1 == into_val(__a.1) { let ($k, $v) = __a; $e }")
    fr("comp_from_vec", "", "Composite<()>", "From<Vec<V>> for Composite<()>", "is_converted(r, vals@) /*@ V03 */", [cl, ("v.into()", "into_value(v)")], "<V: Into<Value<()>>>")
    fr("def_from_vec", "", "ValueDef<()>", "From<Vec<V>> for ValueDef<()>", "r is Composite && is_converted(r->Composite_0, vals@) /*@ V03 */", [("vals.into()", "comp_from_vec(vals)")], "<V: Into<Value<()>>>")
    fr("val_from_vec", "", "Value<()>", "From<Vec<V>> for Value<()>", "r.value is Composite && is_converted(r.value->Composite_0, vals@) /*@ V03 */", [("vals.into()", "def_from_vec(vals)")], "<V: Into<Value<()>>>")
    G = "<K: Into<String>, V: Into<Value<()>>>"
    fr("comp_from_pairs", "", "Composite<()>", "From<Vec<(K, V)>> for Composite<()>", "is_converted_named(r, vals@) /*@ V03 */", [cl2, ("v.into()", "into_value(v)"), ("k.into()", "into_string(k)")], G)
    fr("def_from_pairs", "", "ValueDef<()>", "From<Vec<(K, V)>> for ValueDef<()>", "r is Composite && is_converted_named(r->Composite_0, vals@) /*@ V03 */", [("vals.into()", "comp_from_pairs(vals)")], G)
    fr("val_from_pairs", "", "Value<()>", "From<Vec<(K, V)>> for Value<()>", "r.value is Composite && is_converted_named(r.value->Composite_0, vals@) /*@ V03 */", [("vals.into()", "def_from_pairs(vals)")], G)
    fr("def_from_comp", "", "ValueDef<T>", "From<Composite<T>> for ValueDef<T>", "r == ValueDef::<T>::Composite(val) /*@ V03 */", gen="<T>")
    fr("val_from_comp", "", "Value<()>", "From<Composite<()>> for Value<()>", "r.value == ValueDef::<()>::Composite(val) /*@ V03 */")
    fr("def_from_variant", "", "ValueDef<T>", "From<Variant<T>> for ValueDef<T>", "r == ValueDef::<T>::Variant(val) /*@ V03 */", gen="<T>")
    fr("val_from_variant", "", "Value<()>", "From<Variant<()>> for Value<()>", "r.value == ValueDef::<()>::Variant(val) /*@ V03 */")
    fr("def_from_bits", "", "ValueDef<T>", "From<BitSequence> for ValueDef<T>", "r == ValueDef::<T>::BitSequence(val) /*@ V04 */", gen="<T>")
    fr("val_from_bits", "", "Value<()>", "From<BitSequence> for Value<()>", "r.value == ValueDef::<()>::BitSequence(val) /*@ V04 */", [("val.into()", "def_from_bits(val)")])
    fr("def_from_prim", "", "ValueDef<T>", "From<Primitive> for ValueDef<T>", "r == ValueDef::<T>::Primitive(val) /*@ V04 */", gen="<T>")
    # str
    b.emit("#[verifier::external_body] pub fn str_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }")
    fr("prim_from_str", "", "Primitive", "From<&str> for Primitive", "Primitive::str_spec(r) == Some(val@) /*@ V04 */", [("val.to_string()", "str_to_string(val)")])
    fr("def_from_str", "", "ValueDef<T>", "From<&str> for ValueDef<T>", "r is Primitive && Primitive::str_spec(r->Primitive_0) == Some(val@) /*@ V04 */", [("val.into()", "prim_from_str(val)")], gen="<T>")
    fr("val_from_str", "", "Value<()>", "From<&str> for Value<()>", "r.value is Primitive && Primitive::str_spec(r.value->Primitive_0) == Some(val@) /*@ V04 */", [("val.into()", "def_from_str(val)")])
    # the macro that makes the rest, expanded for each of its rows
    mac = v.find_item("macro_rules", "impl_primitive_type")
    fns = re.findall(r"impl\s*(<T>)?\s*From<\$ty>\s*for\s*([\w<>()]+)\s*\{\s*fn from\(val: \$ty\) -> Self (\{.*?\n\s*\})\s*\}", mac, re.S)
    if [x[1] for x in fns] != ["Primitive", "ValueDef<T>", "Value<()>"]:
        raise LostAnchor("impl_primitive_type! does not have the expected implementations")
    inv = find_all(v.text, "impl_primitive_type!($rows);")
    if len(inv) != 1:
        raise LostAnchor("impl_primitive_type! is not invoked once")
    rows = re.findall(r"(\w+)\s*\(\s*(\w+)\s+as\s+(\w+)\s*\)\s*,?", inv[0][2]["rows"])
    want = {"bool": "Bool", "char": "Char", "String": "String", **{u: "U128" for u in ("u8", "u16", "u32", "u64", "usize", "u128")}, **{i: "I128" for i in ("i8", "i16", "i32", "i64", "isize", "i128")}}
    if sorted(r[1] for r in rows) != sorted(want):
        raise LostAnchor("impl_primitive_type! has other rows")
    for var, ty, cast in rows:
        big = {"U128": "u128", "I128": "i128"}.get(want[ty])
        num = f"val as {big}" if big else "val"
        p = f"Primitive::{want[ty]}({num})"
        specs = [f"r == {p}", f"r == ValueDef::<T>::Primitive({p})", f"r.value == ValueDef::<()>::Primitive({p})"]
        for k, (g, dst, body) in enumerate(fns):
            nm = ("prim", "def", "val")[k] + "_from_" + ty.lower()
            body = body.replace("$variant", var).replace("$castty", cast).replace("$ty", ty)
            f = Fn(nm, f"pub fn {nm}{g}(val: {ty}) -> (r: {dst}) {body}", v.name)
            if ty == cast:
                f.sub_opt(f"val as {ty}", "val")
            if k:
                f.sub("val.into()", ("", "prim", "def")[k] + "_from_" + ty.lower() + "(val)")
            b.fn(f.contract(f"ensures {specs[k]} /*@ V04 */"), f"impl_primitive_type!: From<{ty}> for {dst}")
