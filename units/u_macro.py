"""macros.rs (V05): uses of value!, written out by the compiler itself, under contract. Every value of the expressions inside
is covered; the forms of the text are those of macro_shapes (bounded)."""
import os
import re
import subprocess
import tempfile
from units import lib_value, u_value
from units import macro_shapes as S
from vf.rust import Fn, LostAnchor, lex, match_close
PROPS = ["V05"]
MAC = "src/macros.rs"

GLUE = """
pub broadcast axiom fn string_is_its_text(s: String) ensures #[trigger] into_text(s) == s@;
pub broadcast axiom fn str_is_its_text(s: &str) ensures #[trigger] into_text(s) == s@;
// vec![..]: an empty list, and one item after the other
pub fn list_new<A>() -> (r: Vec<A>) ensures r@ == Seq::<A>::empty() { Vec::new() }
pub fn list_push<A>(l: Vec<A>, x: A) -> (r: Vec<A>) ensures r@ == l@.push(x) { let mut l = l; l.push(x); l }
// a clone of a value is that value
pub trait Copyable: Sized { fn clone_of(&self) -> (r: Self) ensures r == *self; }
impl Copyable for Value<()> { #[verifier::external_body] fn clone_of(&self) -> (r: Value<()>) { unimplemented!() } }
// Value::from, by the type of what it is given; the conversions are those of value_type.rs
pub trait Made: Sized { spec fn makes(self, r: Value<()>) -> bool; fn made(self) -> (r: Value<()>) ensures self.makes(r); }
impl Made for Value<()> { open spec fn makes(self, r: Value<()>) -> bool { r == self } fn made(self) -> (r: Value<()>) { self } }
impl Made for &str { open spec fn makes(self, r: Value<()>) -> bool { r.value is Primitive && Primitive::str_spec(r.value->Primitive_0) == Some(self@) } fn made(self) -> (r: Value<()>) { val_from_str(self) } }
impl Made for Composite<()> { open spec fn makes(self, r: Value<()>) -> bool { r.value == ValueDef::<()>::Composite(self) } fn made(self) -> (r: Value<()>) { val_from_comp(self) } }
impl Made for Variant<()> { open spec fn makes(self, r: Value<()>) -> bool { r.value == ValueDef::<()>::Variant(self) } fn made(self) -> (r: Value<()>) { val_from_variant(self) } }
""" + "\n".join(
    f"impl Made for {t} {{ open spec fn makes(self, r: Value<()>) -> bool {{ r.value == ValueDef::<()>::Primitive(Primitive::{v}({e})) }} fn made(self) -> (r: Value<()>) {{ val_from_{t}(self) }} }}"
    for t, v, e in (("bool", "Bool", "self"), ("char", "Char", "self"), ("u128", "U128", "self"), ("i128", "I128", "self"), ("u8", "U128", "self as u128"), ("i32", "I128", "self as i128"))
) + "\n"

VEC = """#![allow(unused)]
macro_rules! vec { () => { list_new() }; ($($x:expr),+ $(,)?) => { { let l = list_new(); $( let l = list_push(l, $x); )+ l } }; }
"""


def expand(src, uses):
    """the compiler's expansion of each use, with local names made distinct as its hygiene says"""
    text = VEC + src.text + "\n" + "\n".join(f"fn use_{j}() {{ {u} }}" for j, u in enumerate(uses))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "m.rs")
        open(p, "w").write(text)
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded,hygiene", p], capture_output=True, text=True, cwd=d)
    out = r.stdout.split("\n/*\nExpansions:")[0]
    ident = re.compile(r"(\w+)\s*/\*\s*\d+#(\d+)\s*\*/")
    bound = {(m[1], m[2]) for m in re.finditer(r"\blet\s+(?:mut\s+)?(\w+)\s*/\*\s*\d+#(\d+)\s*\*/", out) if m[2] != "0"}
    out = ident.sub(lambda m: f"{m[1]}_{m[2]}" if (m[1], m[2]) in bound else m[1], out)
    out = re.sub(r"/\*\s*\d+#\d+\s*\*/", "", out)
    ts = lex(out)
    got = {}
    for i, t in enumerate(ts):
        if t.s == "fn" and ts[i + 1].s.startswith("use_"):
            k = i + 2
            while ts[k].s != "{":
                k += 1
            got[int(ts[i + 1].s[4:])] = out[ts[k].b : ts[match_close(ts, k)].a]
    if len(got) != len(uses):
        raise LostAnchor("value! does not expand for every use: " + (r.stderr.strip().split("\n") or [""])[0][:200])
    return got


def build(b):
    v = lib_value.types(b)
    u_value.sec_accessors(b, v)
    u_value.sec_constructors(b, v)
    u_value.sec_conversions(b, v)
    b.emit(GLUE)
    shapes = S.shapes(1, 40)
    uses = [S.use(s, j) for j, s in enumerate(shapes)]
    got = expand(b.src(MAC), uses)
    for j, s in enumerate(shapes):
        body = got[j]
        for a, c in (("crate::Value::from(", "Made::made("), ("crate::Value", "Value"), ("Vec::<(String, Value)>::new()", "list_new()"), ("Vec::<Value>::new()", "list_new()"), (".clone()", ".clone_of()")):
            body = body.replace(a, c)
        if any(w in body for w in ("macro_rules", "!(", "crate", "unsafe")):
            raise LostAnchor("value! expands to something unexpected: " + body[:80])
        f = Fn(f"use_{j}", f"pub fn use_{j}({S.PARAMS}) -> (r: Value<()>) {{ {body} }}", MAC)
        f.prelude("broadcast use {string_is_its_text, str_is_its_text};")
        b.fn(f.contract("ensures " + ", ".join(S.says(s)) + f" /*@ V05 */, /* {uses[j]} */"), f"value!, value_internal!: {uses[j][:100]}")
