"""Bytes and chars of strings, error types of the parser, and the text writer."""
from units import lib_value
from vf.rust import Fn, LostAnchor, find_all

FS = "src/string_impls/from_string.rs"

STR = """
use vstd::utf8::*;
use vstd::string::*;
// the bytes of a text
pub open spec fn bytes_of(s: &str) -> Seq<u8> { s.spec_bytes() }
// no object is larger than isize::MAX bytes
#[verifier::external_body]
pub proof fn str_fits(s: &str) ensures s.spec_bytes().len() <= isize::MAX { }
#[verifier::external_body]
pub fn str_starts_with(s: &str, p: &str) -> (r: bool) ensures r == (p.spec_bytes().len() <= s.spec_bytes().len() && s.spec_bytes().take(p.spec_bytes().len() as int) == p.spec_bytes()) { s.starts_with(p) }
pub open spec fn b_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn b_alnum(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 }
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool) ensures r == b_alnum(*b);
// dropping a leading ASCII byte from valid UTF-8 leaves valid UTF-8
pub proof fn utf8_skip_ascii(s: Seq<u8>)
    requires valid_utf8(s), s.len() > 0, s[0] < 0x80
    ensures valid_utf8(s.skip(1))
{ reveal(valid_utf8); assert(pop_first_scalar(s) =~= s.skip(1)); }
pub proof fn utf8_skip_asciis(s: Seq<u8>, n: int)
    requires valid_utf8(s), 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] < 0x80
    ensures valid_utf8(s.skip(n))
    decreases n
{
    if n > 0 {
        assert(s[0] < 0x80); utf8_skip_ascii(s);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] s.skip(1)[i] < 0x80 by { assert(s[i + 1] < 0x80); }
        utf8_skip_asciis(s.skip(1), n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
    } else { assert(s.skip(0) =~= s); }
}
"""

# core::fmt::Write as a buffer of chars; on an error nothing is known about what was written
OUT = """
#[verifier::external_body]
pub struct Out { s: String }
pub struct FmtError { }
impl Out {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).text() == old(self).text() + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).text() == old(self).text().push(c) { unimplemented!() }
}
"""

# the same with a flag that says that a write has failed
OUT2 = """
#[verifier::external_body]
pub struct Out { s: String }
pub struct FmtError { }
impl Out {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).text() == old(self).text() + s@ && final(self).failed() == old(self).failed(), r is Err ==> final(self).failed() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).text() == old(self).text().push(c) && final(self).failed() == old(self).failed(), r is Err ==> final(self).failed() { unimplemented!() }
}
"""


def out_writer(f):
    """W: Write becomes the buffer above"""
    for p in (("<T, W: Write>", "<T>"), ("<T, W: core::fmt::Write>", "<T>"), ("mut writer: W", "writer: &mut Out"), ("writer: W", "writer: &mut Out"),
              ("core::fmt::Result", "Result<(), FmtError>"), ("fmt::Result", "Result<(), FmtError>")):
        f.sub_sig(*p, minimum=0)
    return f


def parse_errors(b, kinds=True):
    """ParseError and the error kinds, with the at/at_one/between helpers of at_between! expanded for each"""
    s = b.src(FS)
    b.emit("#[verifier::external_body] pub struct ParseIntError { k: u8 }")
    names = ["ParseErrorKind", "ParseComplexError", "ParseCharError", "ParseStringError", "ParseNumberError", "ParseBitSequenceError"]
    b.emit(s.find_item("struct", "ParseError"))
    for n in names:
        b.emit(s.find_item("enum", n))
    b.emit("// From conversions into ParseErrorKind are the ones thiserror derives for #[from]\npub trait Kind: Sized { spec fn kind(self) -> ParseErrorKind; fn into_kind(self) -> (r: ParseErrorKind) ensures r == self.kind(); }")
    b.emit("impl Kind for ParseErrorKind { open spec fn kind(self) -> ParseErrorKind { self } fn into_kind(self) -> (r: ParseErrorKind) { self } }")
    for n, v in (("ParseComplexError", "Complex"), ("ParseCharError", "Char"), ("ParseStringError", "String"), ("ParseNumberError", "Number"), ("ParseBitSequenceError", "BitSequence")):
        b.emit(f"impl Kind for {n} {{ open spec fn kind(self) -> ParseErrorKind {{ ParseErrorKind::{v}(self) }} fn into_kind(self) -> (r: ParseErrorKind) {{ ParseErrorKind::{v}(self) }} }}")
    b.emit("impl ParseError {")
    for n, e in (("new_at", "r.start_loc == loc && r.end_loc is None && r.err == err.kind()"), ("new_between", "r.start_loc == start && r.end_loc == Some(end) && r.err == err.kind()")):
        f = s.find_fn(n, within="impl ParseError").sub_sig("E: Into<ParseErrorKind>", "E: Kind").sub_sig("-> Self", "-> (r: Self)").sub_opt("err.into()", "err.into_kind()")
        b.fn(f.contract("ensures " + e), "ParseError::" + n)
    b.emit("}")
    mac = s.find_item("macro_rules", "at_between")
    import re
    users = re.findall(r"at_between!\((\w+)\);", s.text)
    if set(users) != set(names):
        raise LostAnchor("at_between! is not used for the expected types")
    ms = find_all(mac, "impl $ty:ident {") or find_all(mac, "impl $$ty {")
    i = mac.index("impl $ty {") if "impl $ty {" in mac else -1
    if i < 0:
        raise LostAnchor("at_between! has another shape")
    from vf.rust import lex, match_close
    body = mac[i:]
    toks = lex(body)
    o = next(k for k, t in enumerate(toks) if t.s == "{")
    inner = body[toks[o].b: toks[match_close(toks, o)].a]
    posts = {"at": "r.start_loc == loc && r.end_loc is None && r.err == self.kind()", "at_one": "r.start_loc == loc && r.end_loc == Some((loc + 1) as usize) && r.err == self.kind()",
             "between": "r.start_loc == start && r.end_loc == Some(end) && r.err == self.kind()"}
    fns = re.findall(r"pub fn (\w+)\((.*?)\) -> ParseError \{(.*?)\}", inner, re.S)
    if sorted(x[0] for x in fns) != sorted(posts):
        raise LostAnchor("at_between! has other functions")
    for n in names:
        b.emit(f"impl {n} {{")
        for name, args, bd in fns:
            f = Fn(name, f"pub fn {name}({args}) -> (r: ParseError) {{{bd}}}", s.name)
            pre = "requires loc < usize::MAX " if name == "at_one" else ""
            b.fn(f.contract(f"{pre}ensures {posts[name]}"), f"{n}::{name} (at_between!)")
        b.emit("}")


def value_ctors(b):
    """the constructors the text code uses, with their contracts"""
    v = b.src(lib_value.VT)
    b.emit("impl Primitive {")
    for n, var in (("u128", "U128"), ("i128", "I128")):
        b.fn(v.find_fn(n, within="impl Primitive").sub_sig("-> Primitive", "-> (r: Primitive)").contract(f"ensures r == Primitive::{var}(val)"), f"Primitive::{n}")
    b.emit("}\nimpl<T> Composite<T> {")
    f = v.find_fn("unnamed", within="impl<T> Composite<T>").sub_sig("<Vals: IntoIterator<Item = Value<T>>>", "").sub_sig("vals: Vals", "vals: Vec<Value<T>>").sub_sig("-> Self", "-> (r: Self)")
    f.sub_opt("$v:ident.into_iter().collect()", "{ let __r: Vec<Value<T>> = $v.into_iter().collect(); proof { assert(__r@ =~= $v@); } __r }")
    b.fn(f.contract("ensures r is Unnamed && r->Unnamed_0@ == vals@"), "Composite::unnamed")
    b.emit("}\nimpl Value<()> {")
    W = "impl Value<()>"
    f = v.find_fn("unnamed_composite", within=W).sub_sig("where Vals: IntoIterator<Item = Value<()>>,", "").sub_sig("<Vals>", "").sub_sig(": Vals", ": Vec<Value<()>>").sub_sig("-> Self", "-> (r: Self)")
    b.fn(f.contract("ensures r.value is Composite && r.value->Composite_0 is Unnamed && r.value->Composite_0->Unnamed_0@ == vals@"), "Value::unnamed_composite")
    for n, var in (("bool", "Bool"), ("char", "Char"), ("u128", "U128"), ("i128", "I128")):
        b.fn(v.find_fn(n, within=W).sub_sig("-> Value<()>", "-> (r: Value<()>)").contract(f"ensures r.value == ValueDef::<()>::Primitive(Primitive::{var}(val))"), f"Value::{n}")
    b.fn(v.find_fn("primitive", within=W).sub_sig("-> Value<()>", "-> (r: Value<()>)").contract("ensures r.value == ValueDef::<()>::Primitive(primitive)"), "Value::primitive")
    b.fn(v.find_fn("bit_sequence", within=W).sub_sig("-> Value<()>", "-> (r: Value<()>)").contract("ensures r.value == ValueDef::<()>::BitSequence(bits)"), "Value::bit_sequence")
    b.fn(v.find_fn("without_context", within=W).sub_sig("-> Value<()>", "-> (r: Value<()>)").contract("ensures r.value == value"), "Value::without_context")
    b.fn(v.find_fn("string", within=W).sub_sig("<S: Into<String>>", "").sub_sig("val: S", "val: String").sub_sig("-> Value<()>", "-> (r: Value<()>)").sub_opt("val.into()", "val").contract("ensures r.value == ValueDef::<()>::Primitive(Primitive::String(val))"), "Value::string")
    b.emit("}")
