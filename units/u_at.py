"""at.rs: indexing by number and by name (V01)."""
from units import lib_value
PROPS = ["V01"]


def build(b):
    v = lib_value.types(b)
    a = b.src("src/at.rs")
    b.emit(a.find_item("enum", "LocationInner").replace("enum LocationInner", "pub enum LocationInner"))
    b.emit(a.find_item("struct", "Location").replace("inner:", "pub inner:"))
    b.emit(
        """
pub enum SLoc { N(int), S(Seq<char>) }
pub open spec fn sloc(l: LocationInner) -> SLoc { match l { LocationInner::Usize(n) => SLoc::N(n as int), LocationInner::Str(s) => SLoc::S(s@) } }

// the first item whose name is exactly the given one
pub open spec fn first_named<T>(v: Seq<(String, Value<T>)>, name: Seq<char>) -> Option<Value<T>> decreases v.len() {
    if v.len() == 0 { None } else if v[0].0@ == name { Some(v[0].1) } else { first_named(v.skip(1), name) }
}
pub open spec fn at_composite<T>(c: Composite<T>, l: SLoc) -> Option<Value<T>> {
    match l {
        SLoc::N(n) => match c {
            Composite::Named(v) => if 0 <= n < v@.len() { Some(v@[n].1) } else { None },
            Composite::Unnamed(v) => if 0 <= n < v@.len() { Some(v@[n]) } else { None },
        },
        SLoc::S(s) => match c { Composite::Named(v) => first_named(v@, s), Composite::Unnamed(_) => None },
    }
}
pub open spec fn at_value<T>(v: Value<T>, l: SLoc) -> Option<Value<T>> {
    match v.value { ValueDef::Composite(c) => at_composite(c, l), ValueDef::Variant(x) => at_composite(x.values, l), _ => None }
}
pub open spec fn deref<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }

// what Iterator::find_map does on a list: the first item for which the function gives something
pub fn vec_find_map<'a, A, B, F: Fn(&'a A) -> Option<&'a B>>(v: &'a Vec<A>, f: F) -> (r: Option<&'a B>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
    ensures
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), None),
        r is Some ==> exists|k: int| 0 <= k < v@.len() && f.ensures((&#[trigger] v@[k],), r) && forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] v@[i],), None),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],)),
            forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), None),
        decreases v@.len() - i
    {
        let r = f(&v[i]);
        if r.is_some() { assert(f.ensures((&v@[i as int],), r)); return r; }
        i += 1;
    }
    None
}
pub proof fn first_named_none<T>(v: Seq<(String, Value<T>)>, name: Seq<char>)
    requires forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].0@ != name,
    ensures first_named(v, name) is None
    decreases v.len()
{ if v.len() > 0 { assert(v[0].0@ != name); assert forall|i: int| 0 <= i < v.skip(1).len() implies #[trigger] v.skip(1)[i].0@ != name by { assert(v[i + 1].0@ != name); } first_named_none(v.skip(1), name); } }
pub proof fn first_named_at<T>(v: Seq<(String, Value<T>)>, name: Seq<char>, k: int)
    requires 0 <= k < v.len(), v[k].0@ == name, forall|i: int| 0 <= i < k ==> #[trigger] v[i].0@ != name,
    ensures first_named(v, name) == Some(v[k].1)
    decreases k
{ if k > 0 { assert(v[0].0@ != name); assert forall|i: int| 0 <= i < k - 1 implies #[trigger] v.skip(1)[i].0@ != name by { assert(v[i + 1].0@ != name); } first_named_at(v.skip(1), name, k - 1); assert(v.skip(1)[k - 1] == v[k]); } }

// String and str compare by their text
#[verifier::external_body]
pub fn str_eq_string(a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }

pub trait AsLocation { spec fn sl(&self) -> SLoc; fn as_location(&self) -> (r: Location<'_>) ensures sloc(r.inner) == self.sl(); }
pub trait At<Ctx>: Sized {
    spec fn at_spec(&self, l: SLoc) -> Option<Value<Ctx>>;
    fn at<L: AsLocation>(&self, loc: L) -> (r: Option<&Value<Ctx>>) ensures deref(r) == self.at_spec(loc.sl());
}
"""
    )

    def impl(hdr, spec, within, fn="at", edit=lambda f: f):
        f = edit(a.find_fn(fn, within=within))
        b.emit(hdr + " {\n" + spec)
        b.fn(f, f"{fn} in {within}")
        b.emit("}")

    impl("impl AsLocation for usize", "open spec fn sl(&self) -> SLoc { SLoc::N(*self as int) }", "AsLocation for usize", "as_location")
    impl("impl<'b> AsLocation for &'b str", "open spec fn sl(&self) -> SLoc { SLoc::S(self@) }", "AsLocation for &str", "as_location")
    impl("impl AsLocation for String", "open spec fn sl(&self) -> SLoc { SLoc::S(self@) }", "AsLocation for String", "as_location",)
    impl("impl<'b, T: AsLocation> AsLocation for &'b T", "open spec fn sl(&self) -> SLoc { (**self).sl() }", "AsLocation for &T", "as_location")

    def ec(f):
        f.sub("if $s:ident == $n:ident", "if str_eq_string($s, $n)")
        f.sub("$v:ident.iter().find_map(|($n:ident, $x:ident)| $e)",
              """{ proof {
                  if forall|i: int| 0 <= i < $v@.len() ==> #[trigger] $v@[i].0@ != s@ { first_named_none($v@, s@); }
                  assert forall|k: int| (0 <= k < $v@.len() && #[trigger] $v@[k].0@ == s@ && (forall|i: int| 0 <= i < k ==> #[trigger] $v@[i].0@ != s@)) implies first_named($v@, s@) == Some($v@[k].1) by { first_named_at($v@, s@, k); }
              }
              vec_find_map($v, |__a: &'a (String, Value<Ctx>)| -> (r: Option<&'a Value<Ctx>>) ensures deref(r) == (if __a.0@ == s@ { Some(__a.1) } else { None }) { let ($n, $x) = __a; $e }) }""")
        f.sub("$val:ident.map(|$v:ident| $e)", "$val.map(|$v: &'a (String, Value<Ctx>)| -> (r: &'a Value<Ctx>) ensures *r == $v.1 { $e })")
        f.sub_sig("fn at<L: AsLocation>(&self, loc: L) -> Option<&Value<Ctx>>", "fn at_composite_exec<'a, Ctx, L: AsLocation>(this: &'a Composite<Ctx>, loc: L) -> (r: Option<&'a Value<Ctx>>)")
        f.sub("match self", "match this")
        f.contract("ensures deref(r) == at_composite(*this, loc.sl())")
        return f
    b.fn(ec(a.find_fn("at", within="At<Ctx> for Composite<Ctx>")), "at in At<Ctx> for Composite<Ctx>")
    b.emit("""impl<Ctx> At<Ctx> for Composite<Ctx> {
    open spec fn at_spec(&self, l: SLoc) -> Option<Value<Ctx>> { at_composite(*self, l) }
    fn at<L: AsLocation>(&self, loc: L) -> (r: Option<&Value<Ctx>>) { at_composite_exec(self, loc) }
}""")
    impl("impl<Ctx> At<Ctx> for Variant<Ctx>", "open spec fn at_spec(&self, l: SLoc) -> Option<Value<Ctx>> { at_composite(self.values, l) }", "At<Ctx> for Variant<Ctx>")
    impl("impl<Ctx> At<Ctx> for Value<Ctx>", "open spec fn at_spec(&self, l: SLoc) -> Option<Value<Ctx>> { at_value(*self, l) }", "At<Ctx> for Value<Ctx>")
    impl("impl<'b, Ctx, T: At<Ctx>> At<Ctx> for Option<&'b T>", "open spec fn at_spec(&self, l: SLoc) -> Option<Value<Ctx>> { match self { Some(x) => x.at_spec(l), None => None } }", "At<Ctx> for Option<&T>",
         edit=lambda f: f.sub("self.as_ref().and_then(|$v:ident| $e)", "match self { Some($v) => $e, None => None }"))
