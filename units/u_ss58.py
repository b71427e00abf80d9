"""custom_parsers/ss58.rs (T06)."""
from units import lib_value, lib_text
from vf.rust import LostAnchor
import re

PROPS = ["T06"]

SPEC = r"""
// ---- outside crates: base58 decoding and Blake2b-512 are opaque functions of their input
pub uninterp spec fn unbase58(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn blake2b512(data: Seq<u8>) -> Seq<u8>;
pub struct FromBase58Error { }
#[verifier::external_body]
pub fn from_base58(s: &str) -> (r: Result<Vec<u8>, FromBase58Error>) ensures r is Ok == unbase58(s@) is Some, r is Ok ==> r->Ok_0@ == unbase58(s@)->Some_0 { unimplemented!() }
#[verifier::external_body]
pub struct Blake2b512 { s: u8 }
impl Blake2b512 {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Blake2b512) ensures r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, d: &[u8]) ensures final(self).data() == old(self).data() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize_to_vec(self) -> (r: Vec<u8>) ensures r@ == blake2b512(self.data()), r@.len() == 64 { unimplemented!() }
}

// ---- strings
pub open spec fn c_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn c_alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') }
pub uninterp spec fn c_white(c: char) -> bool;
#[verifier::external_body]
pub fn char_alnum(c: char) -> (r: bool) ensures r == c_alnum(c) { c.is_ascii_alphanumeric() }
#[verifier::external_body]
pub fn char_digit(c: char) -> (r: bool) ensures r == c_digit(c) { c.is_ascii_digit() }
// the number of bytes of the first n chars
pub open spec fn upto(s: Seq<char>, n: int) -> int { encode_utf8(s.take(n)).len() as int }
#[verifier::external_body]
pub fn str_find<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| f.requires((c,))
    ensures match r {
        None => forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
        Some(n) => exists|k: int| 0 <= k < s@.len() && n == #[trigger] upto(s@, k) && f.ensures((s@[k],), true) && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] s@[i],), false),
    }
{ s.find(f) }
#[verifier::external_body]
pub fn str_all<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures r ==> (forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true)), !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), false)
{ s.chars().all(f) }
#[verifier::external_body]
pub fn str_size(s: &str) -> (r: usize) ensures r == upto(s@, s@.len() as int) { s.len() }
#[verifier::external_body]
pub fn str_no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn str_before(s: &str, n: usize) -> (r: &str) requires exists|k: int| 0 <= k <= s@.len() && n == #[trigger] upto(s@, k)
    ensures forall|k: int| 0 <= k <= s@.len() && n == #[trigger] upto(s@, k) ==> r@ == s@.take(k) { &s[0..n] }
#[verifier::external_body]
pub fn str_from(s: &str, n: usize) -> (r: &str) requires exists|k: int| 0 <= k <= s@.len() && n == #[trigger] upto(s@, k)
    ensures forall|k: int| 0 <= k <= s@.len() && n == #[trigger] upto(s@, k) ==> r@ == s@.skip(k) { &s[n..] }
#[verifier::external_body]
pub fn str_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && c_white(s[0]) { trimmed(s.skip(1)) } else { s } }
#[verifier::external_body]
pub fn str_trim_start(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { s.trim_start() }
#[verifier::external_body]
pub fn str_starts_with_any(s: &str, p: [char; 2]) -> (r: bool) ensures r == (s@.len() > 0 && (s@[0] == p@[0] || s@[0] == p@[1])) { s.starts_with(p) }
#[verifier::external_body]
pub fn slice_same(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn part(v: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { vstd::slice::slice_subrange(v, a, b) }

#[verifier::external_body]
pub fn part_to_vec(v: &[u8], a: usize, b: usize) -> (r: Vec<u8>) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { v[a..b].to_vec() }

// ---- what is accepted
pub open spec fn run_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && c_alnum(s[i]) { run_end(s, i + 1) } else { i } }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_digit(#[trigger] s[i]) }
pub open spec fn opens(s: Seq<char>) -> bool { trimmed(s).len() > 0 && (trimmed(s)[0] == '(' || trimmed(s)[0] == '{') }
pub open spec fn prefix_len(b: Seq<u8>) -> Option<int> { if b.len() == 0 { None } else if b[0] < 64 { Some(1) } else if b[0] < 128 { Some(2) } else { None } }
pub open spec fn ss58pre() -> Seq<u8> { seq![83u8, 83u8, 53u8, 56u8, 80u8, 82u8, 69u8] }
// the payload of a decoded address: a one or two byte prefix, the payload, and the first two bytes of the hash of all that
pub open spec fn payload(b: Seq<u8>) -> Option<Seq<u8>> {
    match prefix_len(b) {
        None => None,
        Some(p) => if b.len() < p + 2 { None }
            else if b.skip(b.len() - 2) != blake2b512(ss58pre() + b.take(b.len() - 2)).take(2) { None }
            else { Some(b.subrange(p, b.len() - 2)) },
    }
}
pub open spec fn ss58_of(run: Seq<char>, rest: Seq<char>) -> Option<Seq<u8>> {
    if run.len() == 0 || run == seq!['t', 'r', 'u', 'e'] || run == seq!['f', 'a', 'l', 's', 'e'] || all_digits(run) || opens(rest) { None }
    else { match unbase58(run) { None => None, Some(b) => payload(b) } }
}
pub open spec fn ss58(s: Seq<char>) -> Option<Seq<u8>> { ss58_of(s.take(run_end(s, 0)), s.skip(run_end(s, 0))) }

pub proof fn run_end_is(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> c_alnum(#[trigger] s[k]), e < s.len() ==> !c_alnum(s[e])
    ensures run_end(s, i) == e decreases e - i
{ if i < e { assert(c_alnum(s[i])); run_end_is(s, i + 1, e); } }

// an unnamed list of unsigned numbers
pub open spec fn is_bytes(v: Value<()>, b: Seq<u8>) -> bool { v.value is Composite && v.value->Composite_0 is Unnamed && are_bytes(v.value->Composite_0->Unnamed_0@, b) }
pub open spec fn are_bytes(v: Seq<Value<()>>, b: Seq<u8>) -> bool { v.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] v[i]).value == ValueDef::<()>::Primitive(Primitive::U128(b[i] as u128)) }
"""

TAIL = """
// ---- what T06 says about an accepted text
pub proof fn accepted(s: Seq<char>)
    ensures ss58(s) is Some ==> ({ let e = run_end(s, 0); let b = unbase58(s.take(e)); &&& 0 < e <= s.len() &&& (forall|i: int| 0 <= i < e ==> c_alnum(#[trigger] s[i])) &&& (e < s.len() ==> !c_alnum(s[e]))
        &&& b is Some &&& ({ let b = b->Some_0; &&& (exists|p: int| (p == 1 || p == 2) && p + 2 <= b.len() && #[trigger] b.take(p) + ss58(s)->Some_0 + blake2b512(ss58pre() + b.take(b.len() - 2)).take(2) == b) })
        &&& !all_digits(s.take(e)) &&& !opens(s.skip(e)) }) /*@ T06 */
{
    run_end_range(s, 0);
    if ss58(s) is Some { let e = run_end(s, 0); let b = unbase58(s.take(e))->Some_0; let p = prefix_len(b)->Some_0;
        assert(b.take(p) + b.subrange(p, b.len() - 2) + b.skip(b.len() - 2) =~= b);
        assert forall|i: int| 0 <= i < e implies c_alnum(#[trigger] s[i]) by { } }
}
pub proof fn run_end_range(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= run_end(s, i) <= s.len(), forall|k: int| i <= k < run_end(s, i) ==> c_alnum(#[trigger] s[k]), run_end(s, i) < s.len() ==> !c_alnum(s[run_end(s, i)])
    decreases s.len() - i
{ if i < s.len() && c_alnum(s[i]) { run_end_range(s, i + 1); } }
// what is followed by white space and an opening bracket is declined, and so are true, false and plain numbers
pub proof fn declined(s: Seq<char>)
    ensures ({ let e = run_end(s, 0); let run = s.take(e); run == seq!['t', 'r', 'u', 'e'] || run == seq!['f', 'a', 'l', 's', 'e'] || all_digits(run) || opens(s.skip(e)) ==> ss58(s) is None }) /*@ T06 */
{ }
"""


def build(b):
    lib_value.types(b)
    b.emit(lib_text.STR)
    lib_text.parse_errors(b)
    lib_text.value_ctors(b)
    b.emit(SPEC)
    v = b.src(lib_value.VT)
    f = v.find_fn("from_bytes", within="impl Value<()>").sub_sig("impl AsRef<[u8]>", "Vec<u8>").sub_sig("-> Value<()>", "-> (r: Value<()>)")
    f.sub_opt("bytes.as_ref()", "bytes.as_slice()").sub("|&$x:ident| $e:rest", "|__a: &u8| -> (r: Value<()>) ensures r.value == ValueDef::<()>::Primitive(Primitive::U128(*__a as u128)) { let $x = *__a; $e }", 1)
    b.emit("impl Value<()> {")
    b.fn(f.contract("ensures is_bytes(r, bytes@)"), "Value::from_bytes")
    b.emit("}")

    p = b.src("src/string_impls/custom_parsers/ss58.rs")
    f = p.find_fn("ss58hash", within="").sub_sig("-> Vec<u8>", "-> (r: Vec<u8>)")
    f.sub_opt("use blake2::{$x};", "")
    byte_strings(f)
    f.sub_opt("const PREFIX: &[u8] = $e;", "let PREFIX: &[u8] = $e; proof { assert(PREFIX@ =~= ss58pre()); }")
    f.sub_opt("$c:ident.finalize().to_vec()", "$c.finalize_to_vec()")
    f.sub_opt("ctx.update(data);", "ctx.update(data); proof { assert(ctx.data() =~= ss58pre() + data@); }")
    b.fn(f.contract("ensures r@ == blake2b512(ss58pre() + data@), r@.len() == 64 /*@ T06 */"))

    f = p.find_fn("parse_ss58_bytes", within="").sub_sig("-> Option<Vec<u8>>", "-> (r: Option<Vec<u8>>)")
    f.sub_opt("use base58::FromBase58;", "")
    f.sub_opt("const CHECKSUM_LEN: usize = $n;", "let CHECKSUM_LEN: usize = $n;")
    f.sub_opt("$c:ident.is_ascii_alphanumeric()", "char_alnum($c)").sub_opt("$c:ident.is_ascii_digit()", "char_digit($c)")
    f.sub_opt("s.find(|$c:ident: char| $e:rest)", "str_find(*s, |$c: char| -> (__b: bool) ensures __b == !c_alnum($c) { $e })")
    f.sub_opt(".unwrap_or(s.len())", ".unwrap_or(str_size(*s))")
    f.sub_opt("&s[0..$e:rest]", "str_before(*s, $e)").sub_opt("&s[$e:tok..]", "str_from(*s, $e)")
    f.sub_opt("$c:ident.is_empty()", "str_no_text($c)")
    f.sub_opt('$c:ident == "true"', 'str_same($c, "true")').sub_opt('$c:ident == "false"', 'str_same($c, "false")')
    f.sub_opt("$c:ident.chars().all(|$x:ident: char| $e:rest)", "str_all($c, |$x: char| -> (__b: bool) ensures __b == c_digit($x) { $e })")
    f.sub_opt("$c:ident.trim_start().starts_with($p:rest)", "str_starts_with_any(str_trim_start($c), $p)")
    f.sub_opt("$c:ident.from_base58()", "from_base58($c)")
    f.sub_opt("&bytes[0..$e:rest]", "part(bytes.as_slice(), 0, $e)").sub_opt("&hash[0..$e:rest]", "part(hash.as_slice(), 0, $e)")
    f.sub_opt("&bytes[$e:tok..] != checksum", "!slice_same(part(bytes.as_slice(), $e, bytes.len()), checksum)")
    f.sub_opt("bytes[$a:tok..$b:tok].to_vec()", "part_to_vec(bytes.as_slice(), $a, $b)")
    if ".split_at(" in f.body or re.search(r"\[[^\[\]]*\.\.[^\[\]]*\]", f.body):
        raise LostAnchor("parse_ss58_bytes: parts of slices in a form the unit does not know")
    f.prelude("""
    let ghost src = s@;
    proof { reveal_strlit("true"); reveal_strlit("false"); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']); run_end_range(src, 0); }
""")
    # a whole string is the run when nothing ends it
    f.sub("let maybe_ss58 =", """proof {
        let k0 = run_end(src, 0);
        if exists|k: int| 0 <= k < src.len() && end_idx == #[trigger] upto(src, k) && !c_alnum(src[k]) && forall|i: int| 0 <= i < k ==> c_alnum(#[trigger] src[i]) {
            let k = choose|k: int| 0 <= k < src.len() && end_idx == #[trigger] upto(src, k) && !c_alnum(src[k]) && forall|i: int| 0 <= i < k ==> c_alnum(#[trigger] src[i]);
            run_end_is(src, 0, k);
        } else { run_end_is(src, 0, src.len() as int); }
        assert(end_idx == upto(src, k0));
    } let maybe_ss58 =""", 1)
    f.contract("""ensures match ss58(old(s)@) { None => r is None && *final(s) == *old(s), Some(p) => r is Some && r->Some_0@ == p && final(s)@ == old(s)@.skip(run_end(old(s)@, 0)) } /*@ T06 */""")
    b.fn(f)
    f = p.find_fn("parse_ss58", within="").sub_sig("-> Option<Result<Value<()>, ParseError>>", "-> (r: Option<Result<Value<()>, ParseError>>)")
    f.contract("""ensures match ss58(old(s)@) { None => r is None && *final(s) == *old(s), Some(p) => r is Some && r->Some_0 is Ok && is_bytes(r->Some_0->Ok_0, p) && final(s)@ == old(s)@.skip(run_end(old(s)@, 0)) } /*@ T06 */""")
    b.fn(f)
    b.emit(TAIL)



def byte_strings(f):
    """byte string literals are not supported by the verifier: written out as lists of bytes"""
    f.body = re.sub(r'b"([^"\\]*)"', lambda m: "&[" + ", ".join(f"{c}u8" for c in m.group(1).encode()) + "]", f.body)
    f.applied.append('b"..."  ==>  &[bytes]')
    return f
