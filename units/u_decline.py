"""Lemmas over the grammar: which custom parser decides, and that parsers which all decline change nothing (T07)."""
from units import lib_value, lib_text, lib_tokens, u_escapes, u_parse
PROPS = ["T07"]

LEMMAS = """
spec fn no_parsers() -> Seq<CustomParser> { Seq::empty() }
spec fn declines(p: CustomParser) -> bool { forall|r: Seq<char>| #[trigger] p.out(r) is Declines }
spec fn all_decline(ps: Seq<CustomParser>) -> bool { forall|i: int| 0 <= i < ps.len() ==> declines(#[trigger] ps[i]) }
proof fn none_first(ps: Seq<CustomParser>, r: Seq<char>) requires all_decline(ps) ensures first_custom(ps, r) is Declines decreases ps.len()
{ if ps.len() > 0 { assert(declines(ps[0])); assert forall|i: int| 0 <= i < ps.skip(1).len() implies declines(#[trigger] ps.skip(1)[i]) by { assert(declines(ps[i + 1])); } none_first(ps.skip(1), r); } }
// the first one that does not decline decides, and those after it do not matter
proof fn first_decides(ps: Seq<CustomParser>, r: Seq<char>, k: int)
    requires 0 <= k < ps.len(), forall|i: int| 0 <= i < k ==> (#[trigger] ps[i]).out(r) is Declines, !(ps[k].out(r) is Declines)
    ensures first_custom(ps, r) == ps[k].out(r), /*@ T07 */
        g_value(ps, r) == (match ps[k].out(r) { CPR::Gives(v, m) => PR::Ok(v, m), CPR::Fails(e) => PR::Err(PE::Custom(e, r)), CPR::Declines => arbitrary() }) /*@ T07 */
    decreases k
{
    first_is(ps, r, k);
}
proof fn first_is(ps: Seq<CustomParser>, r: Seq<char>, k: int)
    requires 0 <= k < ps.len(), forall|i: int| 0 <= i < k ==> (#[trigger] ps[i]).out(r) is Declines, !(ps[k].out(r) is Declines)
    ensures first_custom(ps, r) == ps[k].out(r) decreases k
{
    if k > 0 { assert(ps[0].out(r) is Declines); assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] ps.skip(1)[i]).out(r) is Declines by { assert(ps[i + 1].out(r) is Declines); } first_is(ps.skip(1), r, k - 1); }
}
proof fn d_value(ps: Seq<CustomParser>, r: Seq<char>) requires all_decline(ps) ensures g_value(ps, r) == g_value(no_parsers(), r) /*@ T07 */ decreases r.len(), 3nat
{ none_first(ps, r); none_first(no_parsers(), r); d_named(ps, r); d_unnamed(ps, r); d_variant(ps, r); }
proof fn d_named(ps: Seq<CustomParser>, r: Seq<char>) requires all_decline(ps) ensures g_named(ps, r) == g_named(no_parsers(), r) decreases r.len(), 1nat
{ if starts(r, '{') { let a = ws(r.skip(1)); if a.len() < r.len() && !starts(a, '}') { d_fields(ps, a, false); } } }
proof fn d_unnamed(ps: Seq<CustomParser>, r: Seq<char>) requires all_decline(ps) ensures g_unnamed(ps, r) == g_unnamed(no_parsers(), r) decreases r.len(), 1nat
{ if starts(r, '(') { let a = ws(r.skip(1)); if a.len() < r.len() && !starts(a, ')') { d_items(ps, a, false); } } }
proof fn d_variant(ps: Seq<CustomParser>, r: Seq<char>) requires all_decline(ps) ensures g_variant(ps, r) == g_variant(no_parsers(), r) decreases r.len(), 2nat
{ match g_variant_ident(r) { None => {} Some((n, a)) => { let b = ws(a); if b.len() < r.len() { d_named(ps, b); d_unnamed(ps, b); } } } }
proof fn d_items(ps: Seq<CustomParser>, r: Seq<char>, need: bool) requires all_decline(ps) ensures g_items(ps, r, need) == g_items(no_parsers(), r, need) decreases r.len(), (if need { 4nat } else { 5nat })
{
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o { None => {} Some(a) => { if a.len() > r.len() || (need && a.len() == r.len()) { } else { d_value(ps, a); match g_value(ps, a) { PR::Ok(v, m) => { if m.len() <= a.len() { d_items(ps, m, true); } } _ => {} } } } }
}
proof fn d_field(ps: Seq<CustomParser>, r: Seq<char>) requires all_decline(ps) ensures g_field(ps, r) == g_field(no_parsers(), r) decreases r.len(), 4nat
{ match g_field_name(r) { PR::Ok(n, a) => { match g_sep(a, ':') { None => {} Some(b) => { if b.len() < r.len() { d_value(ps, b); } } } } _ => {} } }
proof fn d_fields(ps: Seq<CustomParser>, r: Seq<char>, need: bool) requires all_decline(ps) ensures g_fields(ps, r, need) == g_fields(no_parsers(), r, need) decreases r.len(), (if need { 5nat } else { 6nat })
{
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o { None => {} Some(a) => { if a.len() > r.len() || (need && a.len() == r.len()) { } else { d_field(ps, a); match g_field(ps, a) { PR::Ok(v, m) => { if m.len() <= a.len() { d_fields(ps, m, true); } } _ => {} } } } }
}
"""


def build(b):
    u_escapes.build(b)
    lib_value.types(b)
    b.emit(lib_text.STR)
    lib_text.parse_errors(b)
    b.emit(lib_tokens.GHOST)
    b.emit(lib_tokens.CHARS)
    b.emit("pub open spec fn suffix_of(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) }")
    b.emit(u_parse.GRAMMAR)
    b.emit(LEMMAS)
