"""The value types, taken from src/value_type.rs, and small pieces shared by units."""
from vf.rust import LostAnchor  # noqa: F401

VT = "src/value_type.rs"

BITS = """
// scale_bits::Bits: a list of bools; only its contents matter here
#[verifier::external_body]
pub struct BitSequence { b: Vec<bool> }
impl BitSequence { pub uninterp spec fn bits(&self) -> Seq<bool>; }
"""


def types(b):
    v = b.src(VT)
    b.emit(BITS)
    for k, n in (("struct", "Value"), ("enum", "ValueDef"), ("enum", "Composite"), ("struct", "Variant"), ("enum", "Primitive")):
        b.emit(v.find_item(k, n))
    b.fns.append(f"{VT}: types Value, ValueDef, Composite, Variant, Primitive")
    return v


# String from anything that converts into one: the standard library's conversions keep the text
INTO = """
pub uninterp spec fn into_text<S>(s: S) -> Seq<char>;
#[verifier::external_body]
pub fn into_string<S: Into<String>>(s: S) -> (r: String) ensures r@ == into_text(s) { s.into() }
"""


# what map(..).collect() does on a list, proved from a loop (vstd's contracts for the adapters do not reach generic items)
MAPS = """
pub fn vec_map<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]),
{
    let ghost g = v@;
    let mut r: Vec<B> = Vec::new();
    for x in it: v.into_iter()
        invariant it.seq() == g, r@.len() == it.index(), forall|i: int| 0 <= i < g.len() ==> f.requires((#[trigger] g[i],)), forall|i: int| 0 <= i < r@.len() ==> f.ensures((g[i],), #[trigger] r@[i]),
    { assert(x == g[it.index() as int]); r.push(f(x)); }
    r
}
pub fn vec_map_ref<'a, A, B, F: Fn(&'a A) -> B>(v: &'a Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]),
{
    let mut r: Vec<B> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]),
        decreases v@.len() - i
    { r.push(f(&v[i])); i += 1; }
    r
}
"""
MAP_SUBS = (("$v:ident.into_iter().map($c).collect()", "vec_map($v, $c)"), ("$v:ident.iter().map($c).collect()", "vec_map_ref($v, $c)"))
