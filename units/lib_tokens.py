"""yap's StrTokens under contract, char classes, and the value as plain ghost data."""
from vf.rust import LostAnchor, lex, match_close

# the ghost form of a value: text, sequences and numbers only
GHOST = """
#[verifier::ext_equal]
pub enum SP { Bool(bool), Char(char), Str(Seq<char>), U128(u128), I128(i128), U256([u8; 32]), I256([u8; 32]) }
pub enum SV { Comp(SC), Var(Seq<char>, SC), Bits(Seq<bool>), Prim(SP) }
pub enum SC { Named(Seq<(Seq<char>, SV)>), Unnamed(Seq<SV>) }
pub open spec fn sp(p: Primitive) -> SP { match p { Primitive::Bool(b) => SP::Bool(b), Primitive::Char(c) => SP::Char(c), Primitive::String(s) => SP::Str(s@), Primitive::U128(n) => SP::U128(n), Primitive::I128(n) => SP::I128(n), Primitive::U256(n) => SP::U256(n), Primitive::I256(n) => SP::I256(n) } }
pub open spec fn sv<T>(v: Value<T>) -> SV decreases v { svd(v.value) }
pub open spec fn svd<T>(v: ValueDef<T>) -> SV decreases v { match v { ValueDef::Composite(c) => SV::Comp(sc(c)), ValueDef::Variant(x) => SV::Var(x.name@, sc(x.values)), ValueDef::BitSequence(b) => SV::Bits(b.bits()), ValueDef::Primitive(p) => SV::Prim(sp(p)) } }
pub open spec fn sc<T>(c: Composite<T>) -> SC decreases c {
    match c {
        Composite::Named(v) => SC::Named(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { (v@[i].0@, sv(v@[i].1)) } else { arbitrary() })),
        Composite::Unnamed(v) => SC::Unnamed(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { sv(v@[i]) } else { arbitrary() })),
    }
}
pub open spec fn svs<T>(v: Seq<Value<T>>) -> Seq<SV> { Seq::new(v.len(), |i: int| sv(v[i])) }
pub open spec fn sfs<T>(v: Seq<(String, Value<T>)>) -> Seq<(Seq<char>, SV)> { Seq::new(v.len(), |i: int| (v[i].0@, sv(v[i].1))) }
pub proof fn sc_unnamed<T>(v: Vec<Value<T>>) ensures sc(Composite::Unnamed(v)) == SC::Unnamed(svs(v@)) { assert(sc(Composite::Unnamed(v))->Unnamed_0 =~= svs(v@)); }
pub proof fn sc_named<T>(v: Vec<(String, Value<T>)>) ensures sc(Composite::Named(v)) == SC::Named(sfs(v@)) { assert(sc(Composite::Named(v))->Named_0 =~= sfs(v@)); }
"""

CHARS = """
// Unicode classes: what the standard library says, with the few facts about ASCII that matter
#[verifier::opaque]
pub open spec fn is_ws(c: char) -> bool { 9 <= c as u32 <= 13 || c as u32 == 32 || c as u32 == 0x85 || c as u32 == 0xa0 || c as u32 == 0x1680 || 0x2000 <= c as u32 <= 0x200a || c as u32 == 0x2028 || c as u32 == 0x2029 || c as u32 == 0x202f || c as u32 == 0x205f || c as u32 == 0x3000 }
pub proof fn ascii_ws() ensures is_ws(' '), is_ws('\\n'), forall|c: char| c as u32 > 32 && c as u32 <= 126 ==> !#[trigger] is_ws(c) { reveal(is_ws); }
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn is_alnum(c: char) -> bool;
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == is_alpha(c);
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == is_alnum(c);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == is_digit(*c);
// checked for every char by the bounded part of this check
#[verifier::external_body]
pub proof fn char_classes()
    ensures forall|c: char| #[trigger] is_alpha(c) ==> is_alnum(c) && !is_digit(c),
        forall|c: char| #[trigger] is_digit(c) ==> is_alnum(c),
        forall|c: char| #[trigger] is_alnum(c) ==> !is_ws(c),
        forall|c: char| 'a' <= c <= 'z' || 'A' <= c <= 'Z' ==> #[trigger] is_alpha(c),
        forall|c: char| c as u32 <= 126 && !('a' <= c <= 'z' || 'A' <= c <= 'Z') ==> !#[trigger] is_alpha(c),
        forall|c: char| c as u32 <= 126 && !('a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9') ==> !#[trigger] is_alnum(c)
{ }
// the longest start of r whose chars satisfy p, and what is left after it
pub open spec fn dropw(r: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases r.len() { if r.len() > 0 && p(r[0]) { dropw(r.skip(1), p) } else { r } }
pub proof fn dropw_is(r: Seq<char>, p: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= r.len(), forall|i: int| 0 <= i < n ==> p(#[trigger] r[i]), n < r.len() ==> !p(r[n])
    ensures dropw(r, p) == r.skip(n) decreases n
{
    if n > 0 {
        assert(p(r[0]));
        assert forall|i: int| 0 <= i < n - 1 implies p(#[trigger] r.skip(1)[i]) by { assert(p(r[i + 1])); }
        dropw_is(r.skip(1), p, n - 1);
        assert(r.skip(1).skip(n - 1) =~= r.skip(n));
    } else { assert(r.skip(0) =~= r); }
}
pub proof fn dropw_len(r: Seq<char>, p: spec_fn(char) -> bool)
    ensures dropw(r, p).len() <= r.len(), dropw(r, p) == r.skip(r.len() - dropw(r, p).len()),
        forall|i: int| 0 <= i < r.len() - dropw(r, p).len() ==> p(#[trigger] r[i]), dropw(r, p).len() > 0 ==> !p(dropw(r, p)[0])
    decreases r.len()
{
    if r.len() > 0 && p(r[0]) {
        dropw_len(r.skip(1), p); assert(dropw(r, p) =~= r.skip(r.len() - dropw(r, p).len()));
        assert forall|i: int| 0 <= i < r.len() - dropw(r, p).len() implies p(#[trigger] r[i]) by { if i > 0 { assert(r.skip(1)[i - 1] == r[i]); } }
    } else { assert(r.skip(0) =~= r); }
}
pub open spec fn starts(r: Seq<char>, c: char) -> bool { r.len() > 0 && r[0] == c }
pub open spec fn starts_with(r: Seq<char>, s: Seq<char>) -> bool { r.len() >= s.len() && r.take(s.len() as int) =~= s }
"""

TOKENS = """
// length in bytes
pub open spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }
pub open spec fn suffix_of(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) }
pub proof fn suffix_skip(r: Seq<char>, s: Seq<char>, n: int) requires suffix_of(r, s), 0 <= n <= r.len() ensures suffix_of(r.skip(n), s) { }
pub proof fn suffix_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires suffix_of(a, b), suffix_of(b, c) ensures suffix_of(a, c) { }
pub proof fn suffix_bytes(r: Seq<char>, s: Seq<char>) requires suffix_of(r, s) ensures blen(r) <= blen(s), blen(s) == blen(s.take(s.len() - r.len())) + blen(r)
{ let k = s.len() - r.len(); assert(s =~= s.take(k) + r); encode_utf8_concat(s.take(k), r); }
pub proof fn fewer_bytes(r: Seq<char>, s: Seq<char>) requires suffix_of(r, s), r.len() < s.len() ensures blen(r) < blen(s)
{
    let k = s.len() - r.len(); suffix_bytes(r, s);
    let p = s.take(k); assert(p =~= p.drop_last().push(p.last())); encode_utf8_push(p.drop_last(), p.last());
}
// yap::types::StrTokens: the whole text and what is left of it
#[verifier::external_body]
pub struct StrTokens<'a> { s: &'a str, cursor: usize }
#[verifier::external_body]
pub struct Loc { p: usize }
impl Clone for Loc { #[verifier::external_body] fn clone(&self) -> (r: Loc) ensures r == *self { Loc { p: self.p } } }
impl Loc {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn offset(&self) -> (r: usize) ensures suffix_of(self.rest(), self.text()) ==> r == blen(self.text()) - blen(self.rest()) && r <= isize::MAX { unimplemented!() }
}
// no text has more than isize::MAX bytes
#[verifier::external_body]
pub proof fn tokens_fit(t: &StrTokens) ensures t.text().len() <= isize::MAX { }
impl<'a> StrTokens<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn rest(&self) -> Seq<char>;
    pub open spec fn wf(&self) -> bool { suffix_of(self.rest(), self.text()) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).text() == old(self).text(), old(self).wf() ==> final(self).wf(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<char>)
        ensures *final(self) == *old(self), old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]), old(self).rest().len() == 0 ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn token(&mut self, c: char) -> (r: bool)
        ensures final(self).text() == old(self).text(), old(self).wf() ==> final(self).wf(),
            r == starts(old(self).rest(), c), r ==> final(self).rest() == old(self).rest().skip(1), !r ==> final(self).rest() == old(self).rest()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tokens(&mut self, s: &str) -> (r: bool)
        ensures final(self).text() == old(self).text(), old(self).wf() ==> final(self).wf(),
            r == starts_with(old(self).rest(), s@), r ==> final(self).rest() == old(self).rest().skip(s@.len() as int), !r ==> final(self).rest() == old(self).rest()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn location(&self) -> (r: Loc) ensures r.text() == self.text(), r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_location(&mut self, l: Loc) requires l.text() == old(self).text() ensures final(self).text() == old(self).text(), final(self).rest() == l.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(&self) -> (r: usize) ensures self.wf() ==> r == blen(self.text()) - blen(self.rest()) && r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: &'a str) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_text(&self, a: Loc, b: Loc) -> (r: String)
        requires a.text() == self.text(), b.text() == self.text(), suffix_of(b.rest(), a.rest())
        ensures r@ == a.rest().take(a.rest().len() - b.rest().len())
    { unimplemented!() }
    // yap's skip_while: take tokens while they match, step back over the one that does not
    pub fn skip_while<F: Fn(&char) -> bool>(&mut self, f: F) -> (n: usize)
        requires forall|c: &char| f.requires((c,)), old(self).wf()
        ensures final(self).text() == old(self).text(), final(self).wf(), n == old(self).rest().len() - final(self).rest().len(),
            forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((&c,), b) ==> b == p(c)) ==> final(self).rest() == #[trigger] dropw(old(self).rest(), p)
    {
        let mut n: usize = 0;
        proof { tokens_fit(self); }
        loop
            invariant self.wf(), forall|c: &char| f.requires((c,)), self.text() == old(self).text(), old(self).wf(), old(self).text().len() <= isize::MAX, n <= old(self).rest().len(), self.rest() == old(self).rest().skip(n as int),
                forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] old(self).rest()[i],), true)
            ensures n < old(self).rest().len() ==> f.ensures((&old(self).rest()[n as int],), false), self.wf(), self.text() == old(self).text(), n <= old(self).rest().len(), self.rest() == old(self).rest().skip(n as int),
                forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] old(self).rest()[i],), true)
            decreases old(self).rest().len() - n
        {
            let l = self.location();
            match self.next() {
                None => { break; }
                Some(c) => {
                    assert(c == old(self).rest()[n as int]);
                    if !f(&c) { self.set_location(l); break; }
                    n += 1;
                    assert(self.rest() =~= old(self).rest().skip(n as int));
                }
            }
        }
        proof {
            assert forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((&c,), b) ==> b == p(c)) implies self.rest() == #[trigger] dropw(old(self).rest(), p) by { dropw_is(old(self).rest(), p, n as int); }
        }
        n
    }
}
"""


def split_args(text):
    """top-level commas"""
    toks = lex(text)
    out, i, a = [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.k == "op" and t.s in ("(", "[", "{"):
            i = match_close(toks, i) + 1
            continue
        if t.s == ",":
            out.append(text[a:t.a].strip())
            a = t.b
        i += 1
    out.append(text[a:].strip())
    return [x for x in out if x]


def one_of(f):
    """yap::one_of!(t; a, b, ..): each in turn, going back to where it started when one does not match"""

    def expand(env):
        t = env["t"]
        s = "None"
        for e in reversed(split_args(env["args"])):
            s = f"{{ let __l = {t}.location(); match {e} {{ Some(__r) => Some(__r), None => {{ {t}.set_location(__l); {s} }} }} }}"
        return s

    return f.sub("yap::one_of!($t:ident; $args)", expand)


def one_of_opt(f):
    """as one_of, where an alternative may use `?`: it is kept in a closure-free block"""
    return one_of(f)


def sep_by_err(f, g, tail):
    """t.sep_by_err(P, S).collect::<Result<_, _>>()? unfolded as yap::SepByErr::next does it.
    g: the grammar's list, tail: the ghost form of the list of values"""

    def sep_text(env):
        if env["a"] != env["t"] or env["b"] != env["t"] or env["c"].strip(", \n") != "":
            raise LostAnchor("sep_by_err with other names")
        t, vals = env["t"], env["vals"]
        return f"""let ghost __a = {t}.rest();
    let mut {vals} = Vec::new();
    let mut __need = false;
    proof {{ assert({tail}({vals}@) =~= Seq::empty()); pre_none({g}(custom_parsers@, __a, false)); }}
    loop
        invariant_except_break {g}(custom_parsers@, __a, false) == pre({tail}({vals}@), {g}(custom_parsers@, {t}.rest(), __need))
        invariant {t}.wf(), {t}.text() == old({t}).text(), start <= blen({t}.text()), suffix_of({t}.rest(), __a), suffix_of(__a, old({t}).rest()), __a.len() < old({t}).rest().len(), __a == ws(old({t}).rest().skip(1)), INV
        ensures {g}(custom_parsers@, __a, false) == PR::Ok({tail}({vals}@), {t}.rest())
        decreases {t}.rest().len(), (if __need {{ 0int }} else {{ 1int }})
    {{
        let __last = {t}.location();
        let ghost __r = {t}.rest();
        let ghost __before = {tail}({vals}@);
        let ghost __was = __need;
        if __need {{ if !({env['s']}) {{ {t}.set_location(__last); proof {{ assert(__before + Seq::empty() =~= __before); }} break; }} }}
        let ghost __from = {t}.rest();
        match {env['p']} {{
            Ok(__o) => {{
                {vals}.push(__o); __need = true;
                proof {{
                    let v = {tail}({vals}@).last();
                    assert({tail}({vals}@) =~= __before.push(v));
                    pre_step(__before, v, {g}(custom_parsers@, {t}.rest(), true));
                    suffix_trans({t}.rest(), __from, __r); suffix_trans({t}.rest(), __r, __a);
                }}
            }}
            Err(__e) => {{ {t}.set_location(__last); return Err(Some(__e)); }}
        }}
    }}
    proof {{ suffix_trans({t}.rest(), __a, old({t}).rest()); }}"""

    return f.sub("let $vals:ident = $t:ident.sep_by_err(|$a:ident| $p:rest, |$b:ident| $s:rest $c).collect::<Result<_, _>>()?;", sep_text)


def spec_pred(e):
    """a bool expression over a char, as ghost text"""
    from vf.rust import rewrite
    for m, g in (("is_whitespace", "is_ws"), ("is_alphabetic", "is_alpha"), ("is_alphanumeric", "is_alnum"), ("is_ascii_digit", "is_digit")):
        e = rewrite(e, f"$c:ident.{m}()", f"{g}(*$c)", minimum=0)
    return e
