"""custom_parsers/hex.rs and custom_formatters/hex.rs (T05)."""
from units import lib_value, lib_text
PROPS = ["T05"]

SPEC = """
// what the hex parser does with the bytes of the remaining text
pub enum HexOut { Decline, Fail(int, Option<int>), Done(Seq<u8>, int) }
pub open spec fn b_hex(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
pub open spec fn nib(b: u8) -> int { if 48 <= b <= 57 { b - 48 } else if 65 <= b <= 70 { b - 65 + 10 } else { b - 97 + 10 } }
// from i on: the first byte that is not an ASCII letter or digit, or the end
pub open spec fn alnum_end(s: Seq<u8>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && b_alnum(s[i]) { alnum_end(s, i + 1) } else { i } }
// the first byte in i..end that is not a hex digit
pub open spec fn bad(s: Seq<u8>, i: int, end: int) -> Option<int> decreases end - i { if i >= end { None } else if !b_hex(s[i]) { Some(i) } else { bad(s, i + 1, end) } }
pub open spec fn pairs(s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |k: int| (nib(s[2 + 2 * k]) * 16 + nib(s[3 + 2 * k])) as u8) }
pub open spec fn hex_spec(s: Seq<u8>) -> HexOut {
    if !(s.len() >= 2 && s[0] == 48 && s[1] == 120) { HexOut::Decline }
    else {
        let end = alnum_end(s, 2);
        match bad(s, 2, end) {
            Some(k) => HexOut::Fail(k, None),
            None => if (end - 2) % 2 != 0 { HexOut::Fail(0, Some(end)) } else { HexOut::Done(pairs(s, (end - 2) / 2), end) },
        }
    }
}
// an unnamed list of unsigned numbers
pub open spec fn is_bytes(v: Value<()>, b: Seq<u8>) -> bool { v.value is Composite && v.value->Composite_0 is Unnamed && are_bytes(v.value->Composite_0->Unnamed_0@, b) }
pub open spec fn are_bytes(v: Seq<Value<()>>, b: Seq<u8>) -> bool { v.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] v[i]).value == ValueDef::<()>::Primitive(Primitive::U128(b[i] as u128)) }

pub proof fn alnum_end_is(s: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> b_alnum(#[trigger] s[k]), e < s.len() ==> !b_alnum(s[e])
    ensures alnum_end(s, i) == e decreases e - i
{ if i < e { assert(b_alnum(s[i])); alnum_end_is(s, i + 1, e); } }
pub proof fn alnum_end_ge(s: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), forall|j: int| i <= j < k ==> b_alnum(#[trigger] s[j])
    ensures alnum_end(s, i) == alnum_end(s, k), alnum_end(s, i) >= k decreases k - i
{ if i < k { assert(b_alnum(s[i])); alnum_end_ge(s, i + 1, k); } else { alnum_end_min(s, k); } }
pub proof fn alnum_end_min(s: Seq<u8>, i: int) requires 0 <= i <= s.len() ensures i <= alnum_end(s, i) <= s.len() decreases s.len() - i
{ if i < s.len() && b_alnum(s[i]) { alnum_end_min(s, i + 1); } }
pub proof fn bad_none(s: Seq<u8>, i: int, e: int)
    requires forall|k: int| i <= k < e ==> b_hex(#[trigger] s[k]) ensures bad(s, i, e) is None decreases e - i
{ if i < e { assert(b_hex(s[i])); bad_none(s, i + 1, e); } }
pub proof fn bad_at(s: Seq<u8>, i: int, k: int, e: int)
    requires i <= k < e, forall|j: int| i <= j < k ==> b_hex(#[trigger] s[j]), !b_hex(s[k]) ensures bad(s, i, e) == Some(k) decreases k - i
{ if i < k { assert(b_hex(s[i])); bad_at(s, i + 1, k, e); } }
pub broadcast proof fn use_bits_or(n: u8, h: u8) requires n < 16, h < 16 ensures #[trigger] ((n << 4) | h) == n * 16 + h
{ assert(((n << 4) | h) == add(mul(n, 16), h)) by (bit_vector) requires n < 16, h < 16; }
pub broadcast proof fn use_bits_times(n: u8, h: u8) requires n < 16, h < 16 ensures #[trigger] (((n * 16) as u8) | h) == n * 16 + h
{ assert((mul(n, 16) | h) == add(mul(n, 16), h)) by (bit_vector) requires n < 16, h < 16; }
pub broadcast proof fn use_bits_shl(n: u8) requires n < 16 ensures #[trigger] (n << 4) == n * 16
{ assert((n << 4) == mul(n, 16)) by (bit_vector) requires n < 16; }
"""

PRINT = """
pub open spec fn hexdig(n: int) -> char { if n < 10 { (48 + n) as u8 as char } else { (55 + n) as u8 as char } }
pub open spec fn hexpairs(b: Seq<u8>) -> Seq<char> decreases b.len() { if b.len() == 0 { Seq::empty() } else { hexpairs(b.drop_last()).push(hexdig((b.last() / 16) as int)).push(hexdig((b.last() % 16) as int)) } }
// what is printed for a list of bytes
pub open spec fn hex_text(b: Seq<u8>) -> Seq<char> { seq!['0', 'x'] + hexpairs(b) }
pub open spec fn printable<T>(v: Value<T>) -> bool { v.value is Composite && v.value->Composite_0 is Unnamed && v.value->Composite_0->Unnamed_0@.len() > 0
    && forall|i: int| 0 <= i < v.value->Composite_0->Unnamed_0@.len() ==> small(#[trigger] v.value->Composite_0->Unnamed_0@[i]) }
pub open spec fn small<T>(v: Value<T>) -> bool { match v.value { ValueDef::Primitive(Primitive::U128(n)) => n < 256, _ => false } }
pub open spec fn byte_of<T>(v: Value<T>) -> u8 { match v.value { ValueDef::Primitive(Primitive::U128(n)) => n as u8, _ => 0 } }
pub open spec fn bytes_in<T>(v: Seq<Value<T>>) -> Seq<u8> { Seq::new(v.len(), |i: int| byte_of(v[i])) }
"""

ROUND = """
// the bytes of the printed text, followed by other text
pub open spec fn hexb(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub proof fn hexpairs_bytes(b: Seq<u8>)
    ensures hexpairs(b).len() == 2 * b.len(),
        forall|k: int| 0 <= k < b.len() ==> #[trigger] hexpairs(b)[2 * k] == hexdig((b[k] / 16) as int) && hexpairs(b)[2 * k + 1] == hexdig((b[k] % 16) as int)
    decreases b.len()
{ if b.len() > 0 { hexpairs_bytes(b.drop_last());
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] hexpairs(b)[2 * k] == hexdig((b[k] / 16) as int) && hexpairs(b)[2 * k + 1] == hexdig((b[k] % 16) as int) by {
        if k < b.len() - 1 { assert(b.drop_last()[k] == b[k]); assert(hexpairs(b.drop_last())[2 * k] == hexdig((b[k] / 16) as int)); }
    } } }
// printed bytes read back: whatever follows, as long as it is not a letter or digit, the same bytes are read and just the printed text is consumed
pub proof fn hex_round_trip(b: Seq<u8>, s: Seq<u8>)
    requires b.len() > 0, s.len() >= 2 + 2 * b.len(), forall|i: int| 0 <= i < 2 + 2 * b.len() ==> (#[trigger] s[i]) == hex_text(b)[i] as u8,
        s.len() == 2 + 2 * b.len() || !b_alnum(s[2 + 2 * b.len() as int])
    ensures hex_spec(s) == HexOut::Done(b, 2 + 2 * b.len() as int)
{
    hexpairs_bytes(b);
    let e = 2 + 2 * b.len() as int;
    assert(s[0] == hex_text(b)[0] as u8); assert(s[1] == hex_text(b)[1] as u8);
    assert forall|k: int| 0 <= k < b.len() implies nib(s[2 + 2 * k]) == b[k] / 16 && nib(s[3 + 2 * k]) == b[k] % 16 && b_hex(s[2 + 2 * k]) && b_hex(s[3 + 2 * k]) by {
        assert(s[2 + 2 * k] == hex_text(b)[2 + 2 * k] as u8); assert(s[3 + 2 * k] == hex_text(b)[3 + 2 * k] as u8);
        assert(hex_text(b)[2 + 2 * k] == hexpairs(b)[2 * k]); assert(hex_text(b)[3 + 2 * k] == hexpairs(b)[2 * k + 1]);
        assert(b[k] / 16 < 16);
    }
    assert forall|i: int| 2 <= i < e implies b_hex(#[trigger] s[i]) && b_alnum(s[i]) by { let k = (i - 2) / 2; assert(i == 2 + 2 * k || i == 3 + 2 * k); assert(b_hex(s[2 + 2 * k]) && b_hex(s[3 + 2 * k])); }
    alnum_end_is(s, 2, e);
    bad_none(s, 2, e);
    assert(pairs(s, (e - 2) / 2) =~= b) by { assert forall|k: int| 0 <= k < b.len() implies pairs(s, b.len() as int)[k] == b[k] by { assert(nib(s[2 + 2 * k]) == b[k] / 16 && nib(s[3 + 2 * k]) == b[k] % 16); } }
}
"""


def build(b):
    lib_value.types(b)
    b.emit(lib_text.STR)
    b.emit(lib_text.OUT)
    lib_text.parse_errors(b)
    lib_text.value_ctors(b)
    b.emit("#[verifier::external_body] pub fn custom_kind<E>(e: E) -> (r: ParseErrorKind) { unimplemented!() }")
    p = b.src("src/string_impls/custom_parsers/hex.rs")
    b.emit(p.find_item("enum", "ParseHexError"))
    b.emit(SPEC)
    f = p.find_fn("parse_hex", within="")
    f.sub_opt('s.starts_with("0x")', 'str_starts_with(*s, "0x")')
    f.sub_opt("=> b -", "=> *b -")
    f.sub_opt("ParseErrorKind::custom($e)", "custom_kind($e)")
    f.sub_opt("core::str::from_utf8_unchecked($e)", "str::from_utf8_unchecked($e)")
    f.sub_opt("vec![]", "Vec::new()")
    f.sub_opt("let mut idx = 2;", "let mut idx: usize = 2;")
    f.sub_opt("let mut last_nibble = None;", "let mut last_nibble: Option<u8> = None;")
    f.sub_opt("let mut composite_values = Vec::new();", "let mut composite_values: Vec<Value<()>> = Vec::new();")
    f.sub_opt("match last_nibble { $x }", "match last_nibble { $x }")
    f.sub_sig("-> Option<Result<Value<()>, ParseError>>", "-> (r: Option<Result<Value<()>, ParseError>>)")
    f.prelude("""
    let ghost src = s.spec_bytes();
    proof { str_fits(*s); encode_utf8_valid_utf8(s@); reveal_strlit("0x"); is_ascii_chars_encode_utf8("0x"@); assert("0x".spec_bytes() =~= seq![48u8, 120u8]); assert(src.len() >= 2 ==> src.take(2)[0] == src[0] && src.take(2)[1] == src[1]);
            assert(src.len() >= 2 && src[0] == 48 && src[1] == 120 ==> src.take(2) =~= seq![48u8, 120u8]); }
""")
    f.loop(0, """
    invariant bytes@ == src, src.len() <= isize::MAX, valid_utf8(src), s.spec_bytes() == src, *s == *old(s), src.len() >= 2, src[0] == 48, src[1] == 120, 2 <= idx <= src.len(),
        forall|k: int| 2 <= k < idx ==> b_alnum(#[trigger] src[k]) && b_hex(src[k]),
        composite_values@.len() == (idx - 2) / 2, last_nibble is Some == ((idx - 2) % 2 == 1), last_nibble is Some ==> last_nibble->Some_0 == nib(src[idx - 1]),
        are_bytes(composite_values@, pairs(src, (idx - 2) / 2)),
    ensures alnum_end(src, 2) == idx
    decreases src.len() - idx
""", 1)
    f.sub_opt("let hex_nibble =", "broadcast use {use_bits_or, use_bits_times, use_bits_shl}; let hex_nibble =")
    f.sub("break;", "{ proof { alnum_end_is(src, 2, idx as int); } break; }")
    # the two error exits
    f.sub("return Some(Err($e)) }", "{ proof { alnum_end_ge(src, 2, idx as int + 1); bad_at(src, 2, idx as int, alnum_end(src, 2)); } return Some(Err($e)) } }", minimum=0)
    f.sub("if last_nibble.is_some() {", "proof { bad_none(src, 2, idx as int); assert forall|k: int| 0 <= k < idx implies #[trigger] src[k] < 0x80 by { if k >= 2 { assert(b_alnum(src[k])); } } utf8_skip_asciis(src, idx as int); } if last_nibble.is_some() {")
    f.sub("composite_values.push($e);", "{ let ghost cv = composite_values@; composite_values.push($e); proof { assert(pairs(src, (idx - 1) / 2).len() == cv.len() + 1); } }")
    f.sub("*s = unsafe { $e };", "*s = unsafe { $e }; proof { assert(bytes@.subrange(idx as int, bytes@.len() as int) =~= src.skip(idx as int)); decode_utf8_encode_utf8(src.skip(idx as int)); encode_utf8_decode_utf8(s@); }")
    f.contract("""ensures match hex_spec(old(s).spec_bytes()) {
        HexOut::Decline => r is None && *final(s) == *old(s),
        HexOut::Fail(a, z) => r is Some && r->Some_0 is Err && r->Some_0->Err_0.start_loc == a && (match z { Some(q) => r->Some_0->Err_0.end_loc == Some(q as usize), None => r->Some_0->Err_0.end_loc is None }) && *final(s) == *old(s),
        HexOut::Done(v, n) => r is Some && r->Some_0 is Ok && is_bytes(r->Some_0->Ok_0, v) && final(s).spec_bytes() == old(s).spec_bytes().skip(n),
    } /*@ T05 */""")
    b.fn(f)
    # printing
    q = b.src("src/string_impls/custom_formatters/hex.rs")
    b.emit(PRINT)
    f = q.find_fn("u4_to_hex", within="").sub_sig("-> char", "-> (r: char)").sub_opt("static HEX", "let HEX").sub_opt("*HEX.get($e).expect($m)", "*HEX.as_slice().get($e).expect($m)")
    b.fn(f.contract("requires n < 16 ensures r == hexdig(n as int) /*@ T05 */"))
    f = lib_text.out_writer(q.find_fn("value_to_hex", within="")).sub_sig("-> Result<(), FmtError>", "-> (r: Result<(), FmtError>)")
    f.contract("requires forall|i: int| 0 <= i < vals@.len() ==> small(#[trigger] vals@[i]) ensures r is Ok ==> final(writer).text() == old(writer).text() + hex_text(bytes_in(vals@)) /*@ T05 */")
    f.sub("for $v:ident in vals", "for $v in it: vals")
    f.loop(0, """invariant it.seq() == vals@.map_values(|v: Value<T>| &v) || true, forall|i: int| 0 <= i < vals@.len() ==> small(#[trigger] vals@[i]), writer.text() == old(writer).text() + seq!['0', 'x'] + hexpairs(bytes_in(vals@).take(it.index() as int)) """, 1)
    f.sub("let n = *n as u8;", """let n = *n as u8; let ghost k = it.index() as int; let ghost before = writer.text();
        proof { assert(*val == vals@[k]); assert(small(vals@[k])); assert(n == bytes_in(vals@)[k]); assert(bytes_in(vals@).take(k + 1).drop_last() =~= bytes_in(vals@).take(k)); assert(bytes_in(vals@).take(k + 1).last() == n);
                assert(n >> 4 == n / 16) by (bit_vector); assert(n & 0b00001111 == n % 16) by (bit_vector); assert(n / 16 < 16); }""")
    f.prelude("""proof { reveal_strlit("0x"); assert("0x"@ =~= seq!['0', 'x']); assert(bytes_in(vals@).take(0) =~= Seq::<u8>::empty()); assert(bytes_in(vals@).take(vals@.len() as int) =~= bytes_in(vals@)); }""")
    b.fn(f)
    f = lib_text.out_writer(q.find_fn("format_hex", within="")).sub_sig("-> Option<Result<(), FmtError>>", "-> (r: Option<Result<(), FmtError>>)")
    f.contract("""ensures r is Some == printable(*value), r is None ==> final(writer).text() == old(writer).text(),
        r is Some && r->Some_0 is Ok ==> final(writer).text() == old(writer).text() + hex_text(bytes_in(value.value->Composite_0->Unnamed_0@)) /*@ T05 */""")
    f.sub("for $v:ident in vals", "for $v in it: vals")
    f.loop(0, "invariant value.value == ValueDef::<T>::Composite(Composite::Unnamed(*vals)), vals@.len() > 0, writer.text() == old(writer).text(), forall|i: int| 0 <= i < it.index() ==> small(#[trigger] vals@[i])", 1)
    b.fn(f)
    b.emit(ROUND)
