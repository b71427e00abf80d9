"""string_impls/from_string.rs: every parser against a specification of the grammar (T01, T02, T03, T04, T07)."""
from units import lib_value, lib_text, lib_tokens, u_escapes
from vf.rust import LostAnchor, find_all
PROPS = ["T01", "T02", "T03", "T04", "T07"]
# which properties a function's contract serves
_ALL = ["T01", "T02", "T07"]
FN_PROPS = dict(parse_number=["T01", "T02", "T04"], parse_char=["T01", "T02", "T03"], parse_string=["T01", "T02", "T03"], parse_bool=["T01", "T02"], parse_bit_sequence=["T01", "T02"],
                parse_ident=["T01", "T02"], parse_field_name=["T01", "T02"], parse_i_string=["T01", "T02"], parse_optional_variant_ident=["T01", "T02"],
                skip_whitespace=["T01", "T02"], skip_spaced_separator=["T01", "T02"], transpose_err=["T01", "T02"], parse_value=_ALL, parse_variant=_ALL,
                parse_named_composite=_ALL, parse_unnamed_composite=_ALL, parse_field_name_and_value=_ALL, new=["T07"], add_custom_parser=["T07"], parse=_ALL)
FS = lib_text.FS

GRAMMAR = """
// what a parser does with the text in front of it
pub enum PR<A> { Ok(A, Seq<char>), No, Err(PE) }
// an error of the built-in syntax, or one that a custom parser gave for the remaining text
pub enum PE { Builtin, Custom(ParseError, Seq<char>) }
pub enum CPR { Declines, Fails(ParseError), Gives(SV, Seq<char>) }
#[verifier::external_body]
pub struct CustomParser { p: u8 }
impl CustomParser {
    // custom parsers are functions of the text they are given
    pub uninterp spec fn out(&self, r: Seq<char>) -> CPR;
    #[verifier::external_body]
    pub fn call<'a>(&self, c: &mut &'a str) -> (r: Option<Result<Value<()>, ParseError>>)
        ensures match self.out((*old(c))@) {
            CPR::Declines => r is None,
            CPR::Fails(e) => r is Some && r->0 is Err && r->0->Err_0 == e && e.start_loc <= isize::MAX && (e.end_loc is Some ==> e.end_loc->0 <= isize::MAX),
            CPR::Gives(v, rem) => r is Some && r->0 is Ok && sv(r->0->Ok_0) == v && (*final(c))@ == rem && suffix_of(rem, (*old(c))@),
        }
    { unimplemented!() }
}
pub open spec fn first_custom(ps: Seq<CustomParser>, r: Seq<char>) -> CPR decreases ps.len() {
    if ps.len() == 0 { CPR::Declines } else { match ps[0].out(r) { CPR::Declines => first_custom(ps.skip(1), r), o => o } }
}
pub open spec fn p_ws() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
pub open spec fn p_alpha() -> spec_fn(char) -> bool { |c: char| is_alpha(c) }
pub open spec fn identc(c: char) -> bool { is_alnum(c) || c == '_' }
pub open spec fn p_ident() -> spec_fn(char) -> bool { |c: char| identc(c) }
pub open spec fn ws(r: Seq<char>) -> Seq<char> { dropw(r, p_ws()) }
pub open spec fn g_sep(r: Seq<char>, c: char) -> Option<Seq<char>> { let a = ws(r); if starts(a, c) { Some(ws(a.skip(1))) } else { None } }
pub open spec fn g_bool(r: Seq<char>) -> PR<bool> {
    if starts_with(r, "true"@) { let m = r.skip(4); if m.len() > 0 && identc(m[0]) { PR::No } else { PR::Ok(true, m) } }
    else if starts_with(r, "false"@) { let m = r.skip(5); if m.len() > 0 && identc(m[0]) { PR::No } else { PR::Ok(false, m) } }
    else { PR::No }
}
pub open spec fn g_close_char(r: Seq<char>, c: char) -> PR<char> { if starts(r, '\\'') { PR::Ok(c, r.skip(1)) } else { PR::Err(PE::Builtin) } }
pub open spec fn g_char(r: Seq<char>) -> PR<char> {
    if !starts(r, '\\'') { PR::No } else {
        let a = r.skip(1);
        if a.len() == 0 { PR::Err(PE::Builtin) }
        else if a[0] != '\\\\' { g_close_char(a.skip(1), a[0]) }
        else {
            let b = a.skip(1);
            if b.len() == 0 { PR::Err(PE::Builtin) } else { match unesc(b[0]) { None => PR::Err(PE::Builtin), Some(c) => g_close_char(b.skip(1), c) } }
        }
    }
}
// the inside of a string, after acc, esc: just after a backslash
pub open spec fn g_str(r: Seq<char>, acc: Seq<char>, esc: bool) -> PR<Seq<char>> decreases r.len() {
    if r.len() == 0 { PR::Err(PE::Builtin) }
    else if esc { match unesc(r[0]) { None => PR::Err(PE::Builtin), Some(c) => g_str(r.skip(1), acc.push(c), false) } }
    else if r[0] == '\\\\' { g_str(r.skip(1), acc, true) }
    else if r[0] == '"' { PR::Ok(acc, r.skip(1)) }
    else { g_str(r.skip(1), acc.push(r[0]), false) }
}
pub open spec fn g_string(r: Seq<char>) -> PR<Seq<char>> { if starts(r, '"') { g_str(r.skip(1), Seq::empty(), false) } else { PR::No } }
pub open spec fn g_ident(r: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let a = dropw(r, p_alpha());
    if a.len() == r.len() { None } else { let e = dropw(a, p_ident()); Some((r.take(r.len() - e.len()), e)) }
}
// the digits and underscores of a number, seen: a digit came before
pub open spec fn numrest(r: Seq<char>, seen: bool) -> Seq<char> decreases r.len() {
    if r.len() > 0 && (is_digit(r[0]) || (seen && r[0] == '_')) { numrest(r.skip(1), seen || is_digit(r[0])) } else { r }
}
pub open spec fn digits(r: Seq<char>, seen: bool) -> Seq<char> decreases r.len() {
    if r.len() > 0 && (is_digit(r[0]) || (seen && r[0] == '_')) { (if is_digit(r[0]) { seq![r[0]] } else { Seq::empty() }) + digits(r.skip(1), seen || is_digit(r[0])) } else { Seq::empty() }
}
// the number that decimal digits denote
pub open spec fn dec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (dec(s.drop_last()) * 10 + (s.last() as u32 - 48)) as nat } }
pub open spec fn g_number(r: Seq<char>) -> PR<SP> {
    let neg = !starts(r, '+') && starts(r, '-');
    let a = if starts(r, '+') || starts(r, '-') { r.skip(1) } else { r };
    let e = numrest(a, false);
    let d = digits(a, false);
    if e.len() == r.len() { PR::No }
    else if d.len() == 0 { PR::Err(PE::Builtin) }
    else if neg { if dec(d) <= 0x8000_0000_0000_0000_0000_0000_0000_0000 { PR::Ok(SP::I128((-(dec(d) as int)) as i128), e) } else { PR::Err(PE::Builtin) } }
    else { if dec(d) <= u128::MAX { PR::Ok(SP::U128(dec(d) as u128), e) } else { PR::Err(PE::Builtin) } }
}
pub open spec fn p_bit() -> spec_fn(char) -> bool { |c: char| c == '0' || c == '1' }
pub open spec fn bits_in(r: Seq<char>) -> Seq<bool> decreases r.len() { if r.len() > 0 && (r[0] == '0' || r[0] == '1') { seq![r[0] == '1'] + bits_in(r.skip(1)) } else { Seq::empty() } }
pub open spec fn g_bits(r: Seq<char>) -> PR<Seq<bool>> {
    if !starts(r, '<') { PR::No } else { let e = dropw(r.skip(1), p_bit()); if starts(e, '>') { PR::Ok(bits_in(r.skip(1)), e.skip(1)) } else { PR::Err(PE::Builtin) } }
}
pub open spec fn g_field_name(r: Seq<char>) -> PR<Seq<char>> {
    match g_string(r) { PR::Ok(n, m) => PR::Ok(n, m), PR::Err(e) => PR::Err(e), PR::No => match g_ident(r) { Some((n, m)) => PR::Ok(n, m), None => PR::Err(PE::Builtin) } }
}
pub open spec fn g_istring(r: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if starts(r, 'v') { match g_string(r.skip(1)) { PR::Ok(n, m) => Some((n, m)), _ => None } } else { None } }
pub open spec fn g_variant_ident(r: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { match g_istring(r) { Some(x) => Some(x), None => g_ident(r) } }

pub open spec fn g_value(ps: Seq<CustomParser>, r: Seq<char>) -> PR<SV> decreases r.len(), 3nat {
    match first_custom(ps, r) {
        CPR::Gives(v, m) => PR::Ok(v, m),
        CPR::Fails(e) => PR::Err(PE::Custom(e, r)),
        CPR::Declines => match g_bool(r) { PR::Ok(b, m) => PR::Ok(SV::Prim(SP::Bool(b)), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_char(r) { PR::Ok(c, m) => PR::Ok(SV::Prim(SP::Char(c)), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_string(r) { PR::Ok(s, m) => PR::Ok(SV::Prim(SP::Str(s)), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_number(r) { PR::Ok(n, m) => PR::Ok(SV::Prim(n), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_named(ps, r) { PR::Ok(c, m) => PR::Ok(SV::Comp(c), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_unnamed(ps, r) { PR::Ok(c, m) => PR::Ok(SV::Comp(c), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_bits(r) { PR::Ok(b, m) => PR::Ok(SV::Bits(b), m), PR::Err(e) => PR::Err(e), PR::No =>
            match g_variant(ps, r) { PR::Ok(v, m) => PR::Ok(v, m), PR::Err(e) => PR::Err(e), PR::No => PR::Err(PE::Builtin) } } } } } } } },
    }
}
pub open spec fn g_named(ps: Seq<CustomParser>, r: Seq<char>) -> PR<SC> decreases r.len(), 1nat {
    if !starts(r, '{') { PR::No } else {
        let a = ws(r.skip(1));
        if a.len() >= r.len() { arbitrary() }
        else if starts(a, '}') { PR::Ok(SC::Named(Seq::empty()), a.skip(1)) }
        else { match g_fields(ps, a, false) {
            PR::Ok(fs, m) => { let e = ws(m); if starts(e, '}') { PR::Ok(SC::Named(fs), e.skip(1)) } else { PR::Err(PE::Builtin) } },
            PR::Err(e) => PR::Err(e), PR::No => arbitrary() } }
    }
}
pub open spec fn g_unnamed(ps: Seq<CustomParser>, r: Seq<char>) -> PR<SC> decreases r.len(), 1nat {
    if !starts(r, '(') { PR::No } else {
        let a = ws(r.skip(1));
        if a.len() >= r.len() { arbitrary() }
        else if starts(a, ')') { PR::Ok(SC::Unnamed(Seq::empty()), a.skip(1)) }
        else { match g_items(ps, a, false) {
            PR::Ok(fs, m) => { let e = ws(m); if starts(e, ')') { PR::Ok(SC::Unnamed(fs), e.skip(1)) } else { PR::Err(PE::Builtin) } },
            PR::Err(e) => PR::Err(e), PR::No => arbitrary() } }
    }
}
pub open spec fn g_variant(ps: Seq<CustomParser>, r: Seq<char>) -> PR<SV> decreases r.len(), 2nat {
    match g_variant_ident(r) {
        None => PR::No,
        Some((n, a)) => { let b = ws(a); if b.len() >= r.len() { arbitrary() } else { match g_named(ps, b) {
            PR::Ok(c, m) => PR::Ok(SV::Var(n, c), m), PR::Err(e) => PR::Err(e),
            PR::No => match g_unnamed(ps, b) { PR::Ok(c, m) => PR::Ok(SV::Var(n, c), m), PR::Err(e) => PR::Err(e), PR::No => PR::No } } } },
    }
}
// one item with, unless it is the first, a separator in front of it; and then the rest of the items. Stops in front of a separator that is not there
pub open spec fn g_items(ps: Seq<CustomParser>, r: Seq<char>, need: bool) -> PR<Seq<SV>> decreases r.len(), if need { 4nat } else { 5nat } {
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o {
        None => PR::Ok(Seq::empty(), r),
        Some(a) => if a.len() > r.len() || (need && a.len() == r.len()) { arbitrary() } else { match g_value(ps, a) {
            PR::Ok(v, m) => if m.len() > a.len() { arbitrary() } else { match g_items(ps, m, true) { PR::Ok(vs, e) => PR::Ok(seq![v] + vs, e), x => x } },
            PR::Err(e) => PR::Err(e), PR::No => arbitrary() } },
    }
}
pub open spec fn g_field(ps: Seq<CustomParser>, r: Seq<char>) -> PR<(Seq<char>, SV)> decreases r.len(), 4nat {
    match g_field_name(r) {
        PR::Ok(n, a) => match g_sep(a, ':') { None => PR::Err(PE::Builtin), Some(b) => if b.len() >= r.len() { arbitrary() } else { match g_value(ps, b) { PR::Ok(v, m) => PR::Ok((n, v), m), PR::Err(e) => PR::Err(e), PR::No => arbitrary() } } },
        PR::Err(e) => PR::Err(e), PR::No => arbitrary(),
    }
}
pub open spec fn g_fields(ps: Seq<CustomParser>, r: Seq<char>, need: bool) -> PR<Seq<(Seq<char>, SV)>> decreases r.len(), if need { 5nat } else { 6nat } {
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o {
        None => PR::Ok(Seq::empty(), r),
        Some(a) => if a.len() > r.len() || (need && a.len() == r.len()) { arbitrary() } else { match g_field(ps, a) {
            PR::Ok(v, m) => if m.len() > a.len() { arbitrary() } else { match g_fields(ps, m, true) { PR::Ok(vs, e) => PR::Ok(seq![v] + vs, e), x => x } },
            PR::Err(e) => PR::Err(e), PR::No => arbitrary() } },
    }
}
"""

REL = """
pub open spec fn pre<A>(acc: Seq<A>, x: PR<Seq<A>>) -> PR<Seq<A>> { match x { PR::Ok(v, m) => PR::Ok(acc + v, m), x => x } }
pub proof fn pre_none<A>(x: PR<Seq<A>>) ensures pre(Seq::empty(), x) == x { if let PR::Ok(v, m) = x { assert(Seq::<A>::empty() + v =~= v); } }
pub proof fn pre_step<A>(acc: Seq<A>, v: A, x: PR<Seq<A>>) ensures pre(acc, match x { PR::Ok(vs, e) => PR::Ok(seq![v] + vs, e), y => y }) == pre(acc.push(v), x) { if let PR::Ok(vs, e) = x { assert(acc + (seq![v] + vs) =~= acc.push(v) + vs); } }

// an error of the built-in syntax lies within the text; one of a custom parser is its own, moved to where it started
pub open spec fn err_ok(p: PE, e: ParseError, text: Seq<char>) -> bool {
    match p {
        PE::Builtin => e.start_loc <= blen(text) && (e.end_loc is Some ==> e.start_loc <= e.end_loc->0),
        PE::Custom(c, r) => suffix_of(r, text) && e.start_loc == blen(text) - blen(r) + c.start_loc && e.err == c.err
            && (c.end_loc is None ==> e.end_loc is None) && (c.end_loc is Some ==> e.end_loc == Some((blen(text) - blen(r) + c.end_loc->0) as usize)),
    }
}
"""


def res(spec, val, post="suffix_of(final(t).rest(), old(t).rest())", opt=True):
    """the contract of a parser: what it gives is what the grammar says, and where it leaves the tokens"""
    err = "r is Err && r->Err_0 is Some && err_ok(__e, r->Err_0->0, old(t).text())" if opt else "r is Err && err_ok(__e, r->Err_0, old(t).text())"
    no = "r is Err && r->Err_0 is None" if opt else "false"
    return f"""requires old(t).wf()
    ensures final(t).wf(), final(t).text() == old(t).text(), match {spec} {{
        PR::Ok(__v, __m) => r is Ok && {val} == __v && final(t).rest() == __m && {post},
        PR::No => {no},
        PR::Err(__e) => {err}, }}"""


def build(b):
    u_escapes.build(b)
    lib_value.types(b)
    b.emit(lib_text.STR)
    lib_text.parse_errors(b)
    lib_text.value_ctors(b)
    b.emit(lib_tokens.GHOST)
    b.emit(lib_tokens.CHARS)
    b.emit(lib_tokens.TOKENS)
    b.emit(GRAMMAR)
    b.emit(REL)
    b.emit("""
impl BitSequence {
    #[verifier::external_body] pub fn new() -> (r: BitSequence) ensures r.bits() == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, b: bool) ensures final(self).bits() == old(self).bits().push(b) { unimplemented!() }
}
// str::parse for a text of decimal digits, with a minus sign in front or not
#[verifier::external_body]
pub fn parse_u128(s: &String) -> (r: Result<u128, ParseIntError>)
    ensures s@.len() > 0 && (forall|i: int| 0 <= i < s@.len() ==> is_digit(#[trigger] s@[i])) ==> (r is Ok == (dec(s@) <= u128::MAX)) && (r is Ok ==> r->Ok_0 == dec(s@))
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_i128(s: &String) -> (r: Result<i128, ParseIntError>)
    ensures s@.len() > 1 && s@[0] == '-' && (forall|i: int| 1 <= i < s@.len() ==> is_digit(#[trigger] s@[i])) ==> (r is Ok == (dec(s@.skip(1)) <= 0x8000_0000_0000_0000_0000_0000_0000_0000)) && (r is Ok ==> r->Ok_0 == -(dec(s@.skip(1)) as int))
{ unimplemented!() }
pub fn str_len(s: &str) -> (n: usize) ensures n == blen(s@) { proof { str_fits(s); } s.len() }
#[verifier::external_body]
pub fn str_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.chars().collect() }
pub proof fn digits_are(r: Seq<char>, seen: bool)
    ensures forall|i: int| 0 <= i < digits(r, seen).len() ==> is_digit(#[trigger] digits(r, seen)[i]), numrest(r, seen).len() <= r.len(), suffix_of(numrest(r, seen), r)
    decreases r.len()
{ if r.len() > 0 && (is_digit(r[0]) || (seen && r[0] == '_')) { let s2 = seen || is_digit(r[0]); digits_are(r.skip(1), s2); suffix_trans(numrest(r, seen), r.skip(1), r);
    let h = if is_digit(r[0]) { seq![r[0]] } else { Seq::empty() };
    assert(digits(r, seen) == h + digits(r.skip(1), s2));
    assert forall|i: int| 0 <= i < digits(r, seen).len() implies is_digit(#[trigger] digits(r, seen)[i]) by { if i >= h.len() { assert(is_digit(digits(r.skip(1), s2)[i - h.len()])); } } } }
pub proof fn str_suffix(r: Seq<char>, acc: Seq<char>, esc: bool)
    ensures match g_str(r, acc, esc) { PR::Ok(_, m) => suffix_of(m, r) && m.len() < r.len(), PR::No => false, PR::Err(_) => true } decreases r.len()
{ if r.len() > 0 {
    if esc { match unesc(r[0]) { None => {}, Some(c) => { str_suffix(r.skip(1), acc.push(c), false); } } }
    else if r[0] == '\\\\' { str_suffix(r.skip(1), acc, true); } else if r[0] != '"' { str_suffix(r.skip(1), acc.push(r[0]), false); } } }
""")
    s = b.src(FS)

    def fn(name):
        f = s.find_fn(name, within="")
        f.sig = f.sig.replace("->", "-> (r:", 1) + ")" if "->" in f.sig else f.sig
        return f

    def preds(f):
        return f.sub_opt("t.skip_while(|$c:ident| $e:rest)", lambda v: f"t.skip_while(|{v['c']}: &char| -> (__b: bool) ensures __b == ({lib_tokens.spec_pred(v['e'])}) {{ proof {{ reveal(is_ws); }} {v['e']} }})")

    # --- whitespace and separators
    f = preds(fn("skip_whitespace")).contract("requires old(t).wf() ensures final(t).wf(), final(t).text() == old(t).text(), final(t).rest() == ws(old(t).rest()), suffix_of(final(t).rest(), old(t).rest())")
    f.prelude("proof { dropw_len(old(t).rest(), p_ws()); }")
    f.sub_opt("t.skip_while($x)", "let __n = t.skip_while($x)")
    f.body += "\nproof { assert(t.rest() == dropw(old(t).rest(), p_ws())); }"
    b.fn(f)
    f = fn("skip_spaced_separator").contract("""requires old(t).wf()
    ensures final(t).wf(), final(t).text() == old(t).text(), r == g_sep(old(t).rest(), s).is_some(), r ==> final(t).rest() == g_sep(old(t).rest(), s)->0 && final(t).rest().len() < old(t).rest().len() && suffix_of(final(t).rest(), old(t).rest())""")
    b.fn(f)
    b.fn(fn("transpose_err").contract("ensures match r0 { Ok(v) => r == Some(Ok::<T, E>(v)), Err(Some(e)) => r == Some(Err::<T, E>(e)), Err(None) => r is None }").sub_sig("r: Result", "r0: Result").sub("match r {", "match r0 {"))

    # --- leaves
    f = fn("parse_bool").contract("""requires old(t).wf()
    ensures final(t).wf(), final(t).text() == old(t).text(), match g_bool(old(t).rest()) { PR::Ok(v, m) => r == Some(v) && final(t).rest() == m && suffix_of(m, old(t).rest()), _ => r is None }""")
    f.sub_opt("$s:tok.chars()", "$s").prelude("""proof { reveal_strlit("true"); reveal_strlit("false"); }""")
    b.fn(f)
    b.fn(fn("parse_char").contract(res("g_char(old(t).rest())", "r->Ok_0")).sub_opt("string_helpers::from_escape_code", "from_escape_code"))
    f = fn("parse_string").contract(res("g_string(old(t).rest())", "r->Ok_0@")).sub_opt("string_helpers::from_escape_code", "from_escape_code")
    f.loop(0, """invariant_except_break g_str(t.rest(), out@, next_is_escaped) == g_str(old(t).rest().skip(1), Seq::empty(), false)
        invariant t.wf(), t.text() == old(t).text(), starts(old(t).rest(), '"'), suffix_of(t.rest(), old(t).rest()), start <= blen(t.text())
        ensures g_str(old(t).rest().skip(1), Seq::empty(), false) == PR::Ok(out@, t.rest())
        decreases t.rest().len()""", 1)
    f.prelude("proof { tokens_fit(t); str_suffix(old(t).rest().skip(1), Seq::empty(), false); suffix_bytes(t.rest(), t.text()); }")
    b.fn(f)

    # take_while(..) over the digits: the loop that the iterator chain runs
    f = fn("parse_number").contract(res("g_number(old(t).rest())", "sp(r->Ok_0)"))
    f.sub_opt("$s:tok.chars()", "$s")
    f.sub("let $d:ident = $t:ident.take_while(|$c:ident| { $body }).into_iter().filter(|$k:ident| $keep:rest);", "let __digits = ();")
    orig = s.find_fn("parse_number", within="").body
    m = find_all(orig, "let $d:ident = $t:ident.take_while(|$c:ident| { $body }).into_iter().filter(|$k:ident| $keep:rest);")
    if len(m) != 1:
        raise LostAnchor("parse_number reads its digits another way")
    v = m[0][2]
    f.sub(f"let $n:ident: String = $s:ident.chain({v['d']}).collect();", lambda e: f"""let mut {e['n']}: String = str_to_string({e['s']});
    proof {{ reveal_strlit(""); reveal_strlit("-"); digits_are({v['t']}.rest(), false); suffix_trans({v['t']}.rest(), {v['t']}.rest(), old(t).rest()); }}
    let ghost __r = {v['t']}.rest();
    loop
        invariant t.wf(), t.text() == old(t).text(), suffix_of(t.rest(), __r), suffix_of(__r, old(t).rest()), {e['n']}@.len() >= {e['s']}@.len(), seen_n == ({e['n']}@.len() > {e['s']}@.len()),
            numrest(__r, false) == numrest(t.rest(), seen_n), {e['n']}@ + digits(t.rest(), seen_n) =~= {e['s']}@ + digits(__r, false)
        ensures digits(t.rest(), seen_n).len() == 0, numrest(t.rest(), seen_n) == t.rest()
        decreases t.rest().len()
    {{
        let __l = {v['t']}.location();
        match {v['t']}.next() {{
            None => {{ break; }}
            Some(__c) => {{
                let {v['c']} = &__c;
                let ghost __rest = __l.rest(); let ghost __seen = seen_n;
                let __take = {{ {v['body']} }};
                if !__take {{ {v['t']}.set_location(__l); break; }}
                let {v['k']} = &__c;
                if {v['keep']} {{ {e['n']}.push(__c); }}
                proof {{ assert(__rest.skip(1) =~= t.rest()); assert(seen_n == (__seen || is_digit(__c))); assert(__seen || is_digit(__c));
                    assert(digits(__rest, __seen) =~= (if is_digit(__c) {{ seq![__c] }} else {{ Seq::empty() }}) + digits(t.rest(), seen_n)); }}
            }}
        }}
    }}
    proof {{
        suffix_trans(t.rest(), __r, old(t).rest()); suffix_bytes(t.rest(), old(t).rest()); suffix_bytes(old(t).rest(), t.text());
        if t.rest().len() < old(t).rest().len() {{ fewer_bytes(t.rest(), old(t).rest()); }}
        digits_are(__r, false);
        assert({e['n']}@ =~= {e['s']}@ + digits(__r, false));
        assert({e['s']}@.len() == 1 ==> {e['n']}@.skip(1) =~= digits(__r, false));
        assert({e['s']}@.len() == 0 ==> {e['n']}@ =~= digits(__r, false));
    }}""")
    f.sub_opt("Err(None)", "Err(None::<ParseError>)")
    f.sub_opt("$n:ident.parse::<u128>()", "parse_u128(&$n)").sub_opt("$n:ident.parse::<i128>()", "parse_i128(&$n)")
    f.sub_opt(".map(|$n:ident| Primitive::$k:ident($x))", lambda e: f".map(|{e['n']}| -> (__x: Primitive) ensures __x == Primitive::{e['k'].upper()}({e['x']}) {{ Primitive::{e['k']}({e['x']}) }})")
    f.sub_opt(".map_err(|$e:ident| $x:rest", ".map_err(|$e: ParseIntError| -> (__x: Option<ParseError>) ensures __x is Some, __x->0.start_loc == start_loc, __x->0.end_loc == Some(end_loc) { $x }")
    b.fn(f)

    f = fn("parse_bit_sequence").contract(res("g_bits(old(t).rest())", "r->Ok_0.bits()"))
    f.sub("let $b:ident = t.take_while(|&$c:ident| $p:rest).into_iter().map(|$m:ident| $y:rest); let mut $s:ident = BitSequence::new(); for $i:ident in $b { $s.push($i); }",
          """let mut $s = BitSequence::new();
    let ghost __r = t.rest();
    loop
        invariant t.wf(), t.text() == old(t).text(), starts(old(t).rest(), '<'), __r == old(t).rest().skip(1), suffix_of(t.rest(), __r), bits_in(__r) =~= $s.bits() + bits_in(t.rest()), dropw(__r, p_bit()) == dropw(t.rest(), p_bit())
        ensures bits_in(t.rest()) =~= Seq::<bool>::empty(), dropw(t.rest(), p_bit()) == t.rest()
        decreases t.rest().len()
    {
        let __l = t.location();
        let ghost __rest = t.rest();
        match t.next() {
            None => { break; }
            Some($c) => {
                if !($p) { t.set_location(__l); break; }
                let $m = $c; let $i = $y; $s.push($i);
                assert(__rest.skip(1) =~= t.rest());
                assert(bits_in(__rest) =~= seq![$i] + bits_in(t.rest()));
            }
        }
    }""")
    b.fn(f)

    # --- names
    f = preds(fn("parse_ident")).contract(res("match g_ident(old(t).rest()) { Some((n, m)) => PR::Ok(n, m), None => PR::Err(PE::Builtin) }", "r->Ok_0@", opt=False))
    f.sub("$t:ident.slice($a:ident, $b:ident).as_iter().collect()", "{ $t.slice_text($a, $b) }")
    f.sub_opt("t.skip_while(", "t.skip_while(")
    f.prelude("""proof { dropw_len(old(t).rest(), p_alpha()); dropw_len(dropw(old(t).rest(), p_alpha()), p_ident()); suffix_trans(dropw(dropw(old(t).rest(), p_alpha()), p_ident()), dropw(old(t).rest(), p_alpha()), old(t).rest());
        suffix_bytes(old(t).rest(), old(t).text()); assert(dropw(old(t).rest(), p_alpha()) =~= dropw(old(t).rest(), p_alpha())); }""")
    b.fn(f)
    f = lib_tokens.one_of(fn("parse_field_name")).contract(res("g_field_name(old(t).rest())", "r->Ok_0@", opt=False))
    f.prelude("proof { suffix_bytes(old(t).rest(), old(t).text()); }")
    b.fn(f)
    f = fn("parse_optional_variant_ident")
    inner = s.find_fn("parse_i_string")
    inner.sub_sig("-> Option<String>", "-> (r: Option<String>)").contract("""requires old(t).wf() ensures final(t).wf(), final(t).text() == old(t).text(),
        match g_istring(old(t).rest()) { Some((n, m)) => r is Some && r->0@ == n && final(t).rest() == m && suffix_of(m, old(t).rest()), None => r is None }""")
    inner.sub_opt("if t.next()? != $c:tok {", "let __c = match t.next() { Some(__c) => __c, None => { return None; } }; if __c != $c {")
    b.fn(inner)
    f.sub("fn parse_i_string($a) -> Option<String> { $b }", "")
    lib_tokens.one_of(f).contract("""requires old(t).wf() ensures final(t).wf(), final(t).text() == old(t).text(),
        match g_variant_ident(old(t).rest()) { Some((n, m)) => r is Some && r->0@ == n && final(t).rest() == m && suffix_of(m, old(t).rest()) && m.len() < old(t).rest().len(), None => r is None }""")
    f.prelude("""proof { let r = old(t).rest(); dropw_len(r, p_alpha()); dropw_len(dropw(r, p_alpha()), p_ident()); if r.len() > 1 { str_suffix(r.skip(1).skip(1), Seq::empty(), false); } }""")
    b.fn(f)

    # --- values
    b.emit("// From<Composite<()>> and From<Variant<()>> for Value<()>: see the unit on values")
    v = b.src(lib_value.VT)
    for ty, var in (("Composite", "Composite"), ("Variant", "Variant")):
        g = v.find_fn("from", within=f"impl From<{ty}<()>> for Value<()>")
        g.sig = g.sig.replace("fn from", f"fn value_from_{ty.lower()}")
        b.fn(g.sub_sig("-> Self", "-> (r: Value<()>)").contract(f"ensures r.value == ValueDef::{var}(val)"), f"Value::from({ty})")
    for name, ch, ty in (("parse_named_composite", "}", "named"), ("parse_unnamed_composite", ")", "unnamed")):
        inner = "g_fields" if ty == "named" else "g_items"
        var = "Named" if ty == "named" else "Unnamed"
        tail = "sfs" if ty == "named" else "svs"
        f = fn(name).contract(res(f"g_{ty}(custom_parsers@, old(t).rest())", "sc(r->Ok_0)", post="suffix_of(final(t).rest(), old(t).rest()) && final(t).rest().len() < old(t).rest().len()") + "\n    decreases old(t).rest().len(), 1nat")
        f.sub_opt("vec![]", "Vec::new()")
        f.sub_opt("Composite::Named(Vec::new())", "{ let __v = Vec::new(); proof { sc_named::<()>(__v); assert(sfs::<()>(__v@) =~= Seq::empty()); } Composite::Named(__v) }")
        f.sub_opt("Composite::Unnamed(Vec::new())", "{ let __v = Vec::new(); proof { sc_unnamed::<()>(__v); assert(svs::<()>(__v@) =~= Seq::empty()); } Composite::Unnamed(__v) }")
        lib_tokens.sep_by_err(f, inner, tail)
        f.sub("INV", f"starts(old(t).rest(), '{'{' if ty == 'named' else '('}'), !starts(__a, '{ch}')")
        f.sub_opt(f"Ok(Composite::{var}($v:ident))", f"{{ proof {{ sc_{ty}::<()>($v); }} Ok(Composite::{var}($v)) }}")
        f.prelude("proof { let r = old(t).rest(); suffix_bytes(r, old(t).text()); if r.len() > 0 { dropw_len(r.skip(1), p_ws()); suffix_trans(ws(r.skip(1)), r.skip(1), r); } }")
        b.fn(f)
    f = lib_tokens.one_of(fn("parse_variant")).contract(res("g_variant(custom_parsers@, old(t).rest())", "SV::Var(r->Ok_0.name@, sc(r->Ok_0.values))", post="suffix_of(final(t).rest(), old(t).rest()) && final(t).rest().len() < old(t).rest().len()") + "\n    decreases old(t).rest().len(), 2nat")
    f.prelude("proof { let r = old(t).rest(); if g_variant_ident(r) is Some { let a = (g_variant_ident(r)->0).1; dropw_len(a, p_ws()); } }")
    b.fn(f)
    f = fn("parse_field_name_and_value").contract(res("g_field(custom_parsers@, old(t).rest())", "(r->Ok_0.0@, sv(r->Ok_0.1))", opt=False) + "\n    decreases old(t).rest().len(), 4nat")
    f.prelude("proof { suffix_bytes(old(t).rest(), old(t).text()); }")
    b.fn(f)
    f = lib_tokens.one_of(fn("parse_value")).contract(res("g_value(custom_parsers@, old(t).rest())", "sv(r->Ok_0)", opt=False) + "\n    decreases old(t).rest().len(), 3nat")
    for ty in ("composite", "variant"):
        pass
    f.sub_opt("parse_named_composite($a).map(|$v:ident| $v.into())", "parse_named_composite($a).map(|$v: Composite<()>| -> (__x: Value<()>) ensures __x.value == ValueDef::<()>::Composite($v) { value_from_composite($v) })")
    f.sub_opt("parse_unnamed_composite($a).map(|$v:ident| $v.into())", "parse_unnamed_composite($a).map(|$v: Composite<()>| -> (__x: Value<()>) ensures __x.value == ValueDef::<()>::Composite($v) { value_from_composite($v) })")
    f.sub_opt("parse_variant($a).map(|$v:ident| $v.into())", "parse_variant($a).map(|$v: Variant<()>| -> (__x: Value<()>) ensures __x.value == ValueDef::<()>::Variant($v) { value_from_variant($v) })")
    f.sub("for $p:ident in custom_parsers", "for $p in it: custom_parsers.iter()")
    f.sub_opt("let $c:ident = &mut &*$s:ident;", "let mut __cur: &str = $s; let $c = &mut __cur;")
    f.sub("parser($c:ident)", "parser.call($c)")
    f.sub_opt("t.remaining().len()", "str_len(t.remaining())").sub_opt("cursor.len()", "str_len(cursor)")
    f.sub("while $c {}", """loop { let ghost __r = t.rest();
        if !($c) { proof { if (*cursor)@.len() < t.rest().len() { fewer_bytes((*cursor)@, t.rest()); } } break; }
        proof { if (*cursor)@.len() == __r.len() { assert((*cursor)@ =~= __r); } suffix_trans(t.rest(), __r, old(t).rest()); } }""")
    f.sub_opt("|$l:ident| start_offset + $l", "|$l: usize| -> (__x: usize) requires start_offset + $l <= usize::MAX ensures __x == start_offset + $l { start_offset + $l }")
    f.loop(1, """invariant t.wf(), t.text() == old(t).text(), suffix_of((*cursor)@, t.rest()), suffix_of(t.rest(), old(t).rest()), first_custom(custom_parsers@, old(t).rest()) == CPR::Gives(sv(value), (*cursor)@)
        ensures t.rest() == (*cursor)@ decreases t.rest().len()""", 2)
    f.loop(0, """invariant it.seq().len() == custom_parsers@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == custom_parsers@[i],
            t.wf(), t.text() == old(t).text(), t.rest() == old(t).rest(), s@ == t.rest(), start_offset == blen(t.text()) - blen(t.rest()), start_offset <= isize::MAX,
            first_custom(custom_parsers@, old(t).rest()) == first_custom(custom_parsers@.skip(it.index()), old(t).rest())""", 2)
    f.sub("if let Some($r:ident) = parser.call($c)", "proof { let k = it.index(); assert(*parser == custom_parsers@[k]); assert(custom_parsers@.skip(k)[0] == custom_parsers@[k]); assert(custom_parsers@.skip(k).skip(1) =~= custom_parsers@.skip(k + 1)); } if let Some($r) = parser.call($c)")
    f.prelude("proof { suffix_bytes(old(t).rest(), old(t).text()); assert(custom_parsers@.skip(0) =~= custom_parsers@); assert(first_custom(custom_parsers@.skip(custom_parsers@.len() as int), old(t).rest()) == CPR::Declines); }")
    b.fn(f)
    # --- entry points
    b.emit("#[verifier::external_body]\npub fn tokens_of<'a>(s: &'a str) -> (r: StrTokens<'a>) ensures r.text() == s@, r.rest() == s@ { unimplemented!() }")
    st = s.find_item("struct", "FromStrBuilder").replace("custom_parsers:", "pub custom_parsers:")
    b.emit(st)
    b.emit("impl FromStrBuilder {")
    f = s.find_fn("new", within="impl FromStrBuilder")
    f.sig = f.sig.replace("pub(crate) ", "").replace("-> Self", "-> (r: Self)")
    b.fn(f.contract("ensures r.custom_parsers@.len() == 0"), "FromStrBuilder::new")
    f = s.find_fn("add_custom_parser", within="impl FromStrBuilder")
    f.sub_sig("<F>", "").sub_sig("where F: Fn(&mut &str) -> Option<Result<Value<()>, ParseError>> + 'static,", "").sub_sig("f: F", "f: CustomParser").sub_sig("-> Self", "-> (r: Self)")
    f.sub_opt("Box::new($x)", "$x").mut_self()
    b.fn(f.contract("ensures r.custom_parsers@ == self.custom_parsers@.push(f)"), "FromStrBuilder::add_custom_parser")
    f = s.find_fn("parse", within="impl FromStrBuilder")
    f.sig = f.sig.replace("->", "-> (r:", 1) + ")"
    f.sub_opt("s.into_tokens()", "tokens_of(s)").sub_opt("&self.custom_parsers", "self.custom_parsers.as_slice()")
    f.contract("""ensures match g_value(self.custom_parsers@, s@) {
            PR::Ok(v, m) => r.0 is Ok && sv(r.0->Ok_0) == v && r.1@ == m,
            PR::No => false,
            PR::Err(e) => r.0 is Err && err_ok(e, r.0->Err_0, s@) }, suffix_of(r.1@, s@)""")
    b.fn(f, "FromStrBuilder::parse")
    b.emit("}")
