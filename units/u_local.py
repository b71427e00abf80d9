"""Lemmas over the grammar: what is parsed depends only on the text consumed and the char after it (T02)."""
from units import lib_value, lib_text, lib_tokens, u_escapes, u_parse
PROPS = ["T02"]

LEMMAS = r"""
spec fn none() -> Seq<CustomParser> { Seq::empty() }
// the same n chars, followed by the same char or by nothing in both
spec fn agree(r: Seq<char>, q: Seq<char>, n: int) -> bool {
    0 <= n <= r.len() && n <= q.len() && (forall|i: int| 0 <= i < n ==> #[trigger] r[i] == q[i]) && ((r.len() == n && q.len() == n) || (r.len() > n && q.len() > n && r[n] == q[n]))
}
proof fn shrink(r: Seq<char>, q: Seq<char>, n: int, k: int) requires agree(r, q, n), 0 <= k <= n ensures agree(r, q, k) { if k < n { assert(r[k] == q[k]); } }
proof fn tail(r: Seq<char>, q: Seq<char>, n: int, k: int) requires agree(r, q, n), 0 <= k <= n ensures agree(r.skip(k), q.skip(k), n - k)
{ assert forall|i: int| 0 <= i < n - k implies #[trigger] r.skip(k)[i] == q.skip(k)[i] by { assert(r[k + i] == q[k + i]); } }
proof fn l_start(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n) ensures forall|c: char| #[trigger] starts(r, c) == starts(q, c), (r.len() > 0) == (q.len() > 0), r.len() > 0 ==> r[0] == q[0] { if n > 0 { assert(r[0] == q[0]); } }
// one char less
proof fn step1(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), n > 0 ensures r.len() > 0, q.len() > 0, r[0] == q[0], agree(r.skip(1), q.skip(1), n - 1) { tail(r, q, n, 1); assert(r[0] == q[0]); }
proof fn l_dropw(r: Seq<char>, q: Seq<char>, n: int, p: spec_fn(char) -> bool)
    requires agree(r, q, n), r.len() - dropw(r, p).len() <= n
    ensures ({ let k = r.len() - dropw(r, p).len(); 0 <= k && dropw(r, p) == r.skip(k) && dropw(q, p) == q.skip(k) })
{
    dropw_len(r, p); let k = r.len() - dropw(r, p).len(); shrink(r, q, n, k);
    assert forall|i: int| 0 <= i < k implies p(#[trigger] q[i]) by { assert(p(r[i])); }
    if k < q.len() { assert(dropw(r, p)[0] == r[k]); }
    dropw_is(q, p, k);
}
spec fn used(r: Seq<char>, m: Seq<char>) -> int { r.len() - m.len() }
spec fn left(r: Seq<char>, m: Seq<char>) -> bool { m.len() <= r.len() && m == r.skip(r.len() - m.len()) }
proof fn left_self(r: Seq<char>) ensures left(r, r) { assert(r.skip(0) =~= r); }
proof fn left_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires left(a, b), left(b, c) ensures left(a, c) { assert(c =~= a.skip(a.len() - c.len())); }
proof fn left_skip(a: Seq<char>, b: Seq<char>) requires left(a, b), b.len() > 0 ensures left(a, b.skip(1)) { assert(b.skip(1) =~= a.skip(a.len() - b.len() + 1)); }
proof fn left_ws(r: Seq<char>) ensures left(r, ws(r)) { dropw_len(r, p_ws()); }

// --- what is left is a part of the text
proof fn s_str(r: Seq<char>, acc: Seq<char>, esc: bool) ensures g_str(r, acc, esc) is Ok ==> left(r, g_str(r, acc, esc)->Ok_1) && g_str(r, acc, esc)->Ok_1.len() < r.len(), !(g_str(r, acc, esc) is No) decreases r.len()
{
    if r.len() > 0 {
        let t = r.skip(1); assert(left(r, t));
        if esc { match unesc(r[0]) { None => {} Some(c) => { s_str(t, acc.push(c), false); if g_str(t, acc.push(c), false) is Ok { left_trans(r, t, g_str(t, acc.push(c), false)->Ok_1); } } } }
        else if r[0] == '\\' { s_str(t, acc, true); if g_str(t, acc, true) is Ok { left_trans(r, t, g_str(t, acc, true)->Ok_1); } }
        else if r[0] == '"' { }
        else { s_str(t, acc.push(r[0]), false); if g_str(t, acc.push(r[0]), false) is Ok { left_trans(r, t, g_str(t, acc.push(r[0]), false)->Ok_1); } }
    }
}
proof fn s_string(r: Seq<char>) ensures g_string(r) is Ok ==> left(r, g_string(r)->Ok_1) && g_string(r)->Ok_1.len() + 1 < r.len(), starts(r, '"') ==> !(g_string(r) is No)
{ if starts(r, '"') { let t = r.skip(1); assert(left(r, t)); s_str(t, Seq::empty(), false); if g_string(r) is Ok { left_trans(r, t, g_string(r)->Ok_1); } } }
proof fn s_char(r: Seq<char>) ensures g_char(r) is Ok ==> left(r, g_char(r)->Ok_1) && g_char(r)->Ok_1.len() + 3 <= r.len()
{
    if g_char(r) is Ok { let a = r.skip(1); assert(left(r, a)); left_skip(r, a); if a[0] == '\\' { left_skip(r, a.skip(1)); left_skip(r, a.skip(1).skip(1)); } else { left_skip(r, a.skip(1)); } }
}
proof fn s_ident(r: Seq<char>) ensures g_ident(r) is Some ==> left(r, (g_ident(r)->0).1) && (g_ident(r)->0).1.len() < r.len() && is_alpha(r[0])
{
    dropw_len(r, p_alpha()); let a = dropw(r, p_alpha()); dropw_len(a, p_ident());
    if g_ident(r) is Some { left_trans(r, a, dropw(a, p_ident())); assert(p_alpha()(r[0])); }
}
proof fn s_num(r: Seq<char>, seen: bool) ensures left(r, numrest(r, seen)) decreases r.len()
{ left_self(r); if r.len() > 0 && (is_digit(r[0]) || (seen && r[0] == '_')) { s_num(r.skip(1), seen || is_digit(r[0])); left_trans(r, r.skip(1), numrest(r, seen)); } }
proof fn s_number(r: Seq<char>) ensures g_number(r) is Ok ==> left(r, g_number(r)->Ok_1) && g_number(r)->Ok_1.len() < r.len(), g_number(r) is No <==> (r.len() == 0 || (r[0] != '+' && r[0] != '-' && !is_digit(r[0])))
{
    let a = if starts(r, '+') || starts(r, '-') { r.skip(1) } else { r };
    s_num(a, false); left_self(r); assert(left(r, a)); left_trans(r, a, numrest(a, false));
    if r.len() > 0 && is_digit(r[0]) { s_num(r.skip(1), true); }
}
proof fn s_bits(r: Seq<char>) ensures g_bits(r) is Ok ==> left(r, g_bits(r)->Ok_1) && g_bits(r)->Ok_1.len() < r.len()
{ if g_bits(r) is Ok { dropw_len(r.skip(1), p_bit()); let e = dropw(r.skip(1), p_bit()); left_trans(r, r.skip(1), e); left_skip(r, e); } }
proof fn s_field_name(r: Seq<char>) ensures g_field_name(r) is Ok ==> left(r, g_field_name(r)->Ok_1) && g_field_name(r)->Ok_1.len() < r.len() { s_string(r); s_ident(r); }
proof fn s_istring(r: Seq<char>) ensures g_istring(r) is Some ==> left(r, (g_istring(r)->0).1) && (g_istring(r)->0).1.len() < r.len() && r[0] == 'v'
{ if starts(r, 'v') { s_string(r.skip(1)); assert(left(r, r.skip(1))); if g_istring(r) is Some { left_trans(r, r.skip(1), (g_istring(r)->0).1); } } }
proof fn s_variant_ident(r: Seq<char>) ensures g_variant_ident(r) is Some ==> left(r, (g_variant_ident(r)->0).1) && (g_variant_ident(r)->0).1.len() < r.len() && is_alpha(r[0]) { char_classes(); s_istring(r); s_ident(r); }
proof fn s_sep(r: Seq<char>, c: char) ensures g_sep(r, c) is Some ==> left(r, g_sep(r, c)->0) && g_sep(r, c)->0.len() < r.len()
{ left_ws(r); let a = ws(r); if starts(a, c) { left_skip(r, a); left_ws(a.skip(1)); left_trans(r, a.skip(1), ws(a.skip(1))); } }
proof fn s_value(r: Seq<char>) ensures g_value(none(), r) is Ok ==> left(r, g_value(none(), r)->Ok_1) && g_value(none(), r)->Ok_1.len() < r.len(), !(g_value(none(), r) is No) decreases r.len(), 3nat
{
    reveal_strlit("true"); reveal_strlit("false");
    s_char(r); s_string(r); s_number(r); s_named(r); s_unnamed(r); s_bits(r); s_variant(r);
}
proof fn s_named(r: Seq<char>) ensures starts(r, '{') && g_named(none(), r) is Ok ==> left(r, g_named(none(), r)->Ok_1) && g_named(none(), r)->Ok_1.len() + 1 < r.len(), starts(r, '{') == !(g_named(none(), r) is No) decreases r.len(), 1nat
{
    if starts(r, '{') {
        let a = ws(r.skip(1)); left_ws(r.skip(1)); assert(left(r, r.skip(1))); left_trans(r, r.skip(1), a);
        if starts(a, '}') { left_skip(r, a); } else { s_fields(a, false); match g_fields(none(), a, false) { PR::Ok(fs, m) => { let e = ws(m); left_ws(m); left_trans(r, a, m); left_trans(r, m, e); if starts(e, '}') { left_skip(r, e); } } _ => {} } }
    }
}
proof fn s_unnamed(r: Seq<char>) ensures starts(r, '(') && g_unnamed(none(), r) is Ok ==> left(r, g_unnamed(none(), r)->Ok_1) && g_unnamed(none(), r)->Ok_1.len() + 1 < r.len(), starts(r, '(') == !(g_unnamed(none(), r) is No) decreases r.len(), 1nat
{
    if starts(r, '(') {
        let a = ws(r.skip(1)); left_ws(r.skip(1)); assert(left(r, r.skip(1))); left_trans(r, r.skip(1), a);
        if starts(a, ')') { left_skip(r, a); } else { s_items(a, false); match g_items(none(), a, false) { PR::Ok(fs, m) => { let e = ws(m); left_ws(m); left_trans(r, a, m); left_trans(r, m, e); if starts(e, ')') { left_skip(r, e); } } _ => {} } }
    }
}
proof fn s_variant(r: Seq<char>) ensures g_variant(none(), r) is Ok ==> left(r, g_variant(none(), r)->Ok_1) && g_variant(none(), r)->Ok_1.len() < r.len() decreases r.len(), 2nat
{
    s_variant_ident(r);
    match g_variant_ident(r) { None => {} Some((n, a)) => { let b = ws(a); left_ws(a); left_trans(r, a, b); s_named(b); s_unnamed(b);
        if starts(b, '{') { if g_named(none(), b) is Ok { left_trans(r, b, g_named(none(), b)->Ok_1); } } else if starts(b, '(') { if g_unnamed(none(), b) is Ok { left_trans(r, b, g_unnamed(none(), b)->Ok_1); } } } }
}
proof fn s_items(r: Seq<char>, need: bool) ensures g_items(none(), r, need) is Ok ==> left(r, g_items(none(), r, need)->Ok_1), !(g_items(none(), r, need) is No) decreases r.len(), (if need { 4nat } else { 5nat })
{
    s_sep(r, ',');
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o { None => { left_self(r); } Some(a) => { left_self(r); assert(left(r, a)); s_value(a); match g_value(none(), a) { PR::Ok(v, m) => { s_items(m, true); match g_items(none(), m, true) { PR::Ok(vs, e) => { left_trans(r, a, m); left_trans(r, m, e); } _ => {} } } _ => {} } } }
}
proof fn s_field(r: Seq<char>) ensures g_field(none(), r) is Ok ==> left(r, g_field(none(), r)->Ok_1) && g_field(none(), r)->Ok_1.len() < r.len(), !(g_field(none(), r) is No) decreases r.len(), 4nat
{
    s_field_name(r);
    match g_field_name(r) { PR::Ok(n, a) => { s_sep(a, ':'); match g_sep(a, ':') { None => {} Some(b) => { left_trans(r, a, b); s_value(b); match g_value(none(), b) { PR::Ok(v, m) => { left_trans(r, b, m); } _ => {} } } } } _ => {} }
}
proof fn s_fields(r: Seq<char>, need: bool) ensures g_fields(none(), r, need) is Ok ==> left(r, g_fields(none(), r, need)->Ok_1), !(g_fields(none(), r, need) is No) decreases r.len(), (if need { 5nat } else { 6nat })
{
    s_sep(r, ',');
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o { None => { left_self(r); } Some(a) => { left_self(r); assert(left(r, a)); s_field(a); match g_field(none(), a) { PR::Ok(v, m) => { s_fields(m, true); match g_fields(none(), m, true) { PR::Ok(vs, e) => { left_trans(r, a, m); left_trans(r, m, e); } _ => {} } } _ => {} } } }
}

// --- the same is read from a text that agrees on what was consumed and on the char after it
spec fn at(q: Seq<char>, r: Seq<char>, m: Seq<char>) -> Seq<char> { q.skip(r.len() - m.len()) }
spec fn same<A>(x: PR<A>, y: PR<A>, r: Seq<char>, q: Seq<char>) -> bool { x is Ok && y == PR::Ok(x->Ok_0, at(q, r, x->Ok_1)) }
// where m starts, seen from k chars further on
proof fn up(r: Seq<char>, q: Seq<char>, m: Seq<char>, k: int) requires 0 <= k <= r.len() - m.len() <= q.len(), k <= r.len() ensures at(q.skip(k), r.skip(k), m) == at(q, r, m) { assert(q.skip(k).skip(r.len() - k - m.len()) =~= q.skip(r.len() - m.len())); }
proof fn l_str(r: Seq<char>, q: Seq<char>, acc: Seq<char>, esc: bool, n: int)
    requires agree(r, q, n), g_str(r, acc, esc) is Ok, used(r, g_str(r, acc, esc)->Ok_1) <= n
    ensures same(g_str(r, acc, esc), g_str(q, acc, esc), r, q) decreases r.len()
{
    s_str(r, acc, esc); step1(r, q, n); let t = r.skip(1); let u = q.skip(1);
    if esc { match unesc(r[0]) { None => {} Some(c) => { s_str(t, acc.push(c), false); l_str(t, u, acc.push(c), false, n - 1); up(r, q, g_str(r, acc, esc)->Ok_1, 1); } } }
    else if r[0] == '\\' { s_str(t, acc, true); l_str(t, u, acc, true, n - 1); up(r, q, g_str(r, acc, esc)->Ok_1, 1); }
    else if r[0] == '"' { }
    else { s_str(t, acc.push(r[0]), false); l_str(t, u, acc.push(r[0]), false, n - 1); up(r, q, g_str(r, acc, esc)->Ok_1, 1); }
}
proof fn l_string(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_string(r) is Ok, used(r, g_string(r)->Ok_1) <= n ensures same(g_string(r), g_string(q), r, q)
{ s_string(r); step1(r, q, n); s_str(r.skip(1), Seq::empty(), false); l_str(r.skip(1), q.skip(1), Seq::empty(), false, n - 1); up(r, q, g_string(r)->Ok_1, 1); }
proof fn l_char(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_char(r) is Ok, used(r, g_char(r)->Ok_1) <= n ensures same(g_char(r), g_char(q), r, q)
{
    s_char(r); step1(r, q, n); let a = r.skip(1); let b = q.skip(1); step1(a, b, n - 1); tail(r, q, n, 1); tail(r, q, n, 2); tail(r, q, n, 3);
    assert(a.skip(1) =~= r.skip(2)); assert(b.skip(1) =~= q.skip(2)); step1(a.skip(1), b.skip(1), n - 2); assert(a.skip(1).skip(1) =~= r.skip(3)); assert(b.skip(1).skip(1) =~= q.skip(3));
    if a[0] == '\\' { let c = a.skip(1).skip(1); assert(c.len() > 0); assert(g_char(r)->Ok_1 == c.skip(1)); assert(n >= 4); step1(c, b.skip(1).skip(1), n - 3); assert(c.skip(1) =~= r.skip(4)); assert(b.skip(1).skip(1).skip(1) =~= q.skip(4)); }
}
proof fn l_ident(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_ident(r) is Some, used(r, (g_ident(r)->0).1) <= n
    ensures g_ident(q) == Some(((g_ident(r)->0).0, at(q, r, (g_ident(r)->0).1)))
{
    s_ident(r); dropw_len(r, p_alpha()); let a = dropw(r, p_alpha()); dropw_len(a, p_ident()); let e = dropw(a, p_ident());
    l_dropw(r, q, n, p_alpha()); let k = r.len() - a.len(); let b = dropw(q, p_alpha());
    tail(r, q, n, k); l_dropw(a, b, n - k, p_ident());
    let j = r.len() - e.len(); assert(b.skip(j - k) =~= q.skip(j)); assert(dropw(b, p_ident()) == q.skip(j));
    assert(r.take(j) =~= q.take(q.len() - (q.len() - j)));
}
proof fn l_num(r: Seq<char>, q: Seq<char>, seen: bool, n: int) requires agree(r, q, n), used(r, numrest(r, seen)) <= n
    ensures numrest(q, seen) == at(q, r, numrest(r, seen)), digits(q, seen) == digits(r, seen) decreases r.len()
{
    l_start(r, q, n); s_num(r, seen);
    if r.len() > 0 && (is_digit(r[0]) || (seen && r[0] == '_')) { s_num(r.skip(1), seen || is_digit(r[0])); step1(r, q, n); l_num(r.skip(1), q.skip(1), seen || is_digit(r[0]), n - 1); up(r, q, numrest(r, seen), 1); }
    else { assert(q.skip(0) =~= q); }
}
proof fn l_number(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_number(r) is Ok, used(r, g_number(r)->Ok_1) <= n ensures same(g_number(r), g_number(q), r, q)
{
    s_number(r); l_start(r, q, n); step1(r, q, n);
    let sign = starts(r, '+') || starts(r, '-');
    let a = if sign { r.skip(1) } else { r }; let b = if sign { q.skip(1) } else { q };
    s_num(a, false);
    l_num(a, b, false, if sign { n - 1 } else { n }); if sign { up(r, q, numrest(a, false), 1); }
}
proof fn l_bitsin(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), used(r, dropw(r, p_bit())) <= n ensures bits_in(r) == bits_in(q) decreases r.len()
{ l_start(r, q, n); dropw_len(r, p_bit()); if r.len() > 0 && (r[0] == '0' || r[0] == '1') { assert(p_bit()(r[0])); step1(r, q, n); dropw_len(r.skip(1), p_bit()); l_bitsin(r.skip(1), q.skip(1), n - 1); } }
proof fn l_bits(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_bits(r) is Ok, used(r, g_bits(r)->Ok_1) <= n ensures same(g_bits(r), g_bits(q), r, q)
{
    s_bits(r); step1(r, q, n); let a = r.skip(1); let b = q.skip(1); let e = dropw(a, p_bit()); dropw_len(a, p_bit()); l_dropw(a, b, n - 1, p_bit()); l_bitsin(a, b, n - 1);
    let k = a.len() - e.len(); tail(a, b, n - 1, k); step1(e, b.skip(k), n - 1 - k); assert(e.skip(1).len() == g_bits(r)->Ok_1.len()); assert(b.skip(k).skip(1) =~= q.skip(r.len() - g_bits(r)->Ok_1.len()));
}
proof fn l_field_name(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_field_name(r) is Ok, used(r, g_field_name(r)->Ok_1) <= n ensures same(g_field_name(r), g_field_name(q), r, q)
{ l_start(r, q, n); s_string(r); s_string(q); if starts(r, '"') { l_string(r, q, n); } else { l_ident(r, q, n); } }
proof fn l_variant_ident(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_variant_ident(r) is Some, used(r, (g_variant_ident(r)->0).1) < n, !starts((g_variant_ident(r)->0).1, '"')
    ensures g_variant_ident(q) == Some(((g_variant_ident(r)->0).0, at(q, r, (g_variant_ident(r)->0).1)))
{
    l_start(r, q, n); s_variant_ident(r); s_istring(r); s_istring(q); s_ident(r); s_string(r.skip(1)); s_string(q.skip(1));
    if g_istring(r) is Some { step1(r, q, n); l_string(r.skip(1), q.skip(1), n - 1); up(r, q, (g_istring(r)->0).1, 1); }
    else {
        l_ident(r, q, n);
        if g_istring(q) is Some {
            // v and a quote: the name is v, and what follows it is that quote
            step1(r, q, n); assert(starts(q.skip(1), '"')); assert(q[1] == '"'); let e = (g_ident(r)->0).1; char_classes();
            let a = dropw(r, p_alpha()); dropw_len(r, p_alpha()); dropw_len(a, p_ident());
            assert(r[1] == q[1]);
            assert(r[1] == '"'); assert(p_alpha()(r[0])); assert(!is_alnum('"')); assert(!is_alpha('"')); assert(r.skip(1)[0] == '"'); assert(!p_alpha()(r.skip(1)[0])); assert(a == r.skip(1)); assert(!p_ident()(a[0])); assert(e == a); assert(starts(e, '"'));
            assert(false);
        }
    }
}
proof fn l_sep(r: Seq<char>, q: Seq<char>, c: char, n: int) requires agree(r, q, n), g_sep(r, c) is Some, used(r, g_sep(r, c)->0) <= n ensures g_sep(q, c) == Some(at(q, r, g_sep(r, c)->0))
{
    s_sep(r, c); left_ws(r); let a = ws(r); let k = r.len() - a.len(); left_ws(a.skip(1)); l_dropw(r, q, n, p_ws()); tail(r, q, n, k); step1(a, q.skip(k), n - k);
    l_dropw(a.skip(1), q.skip(k).skip(1), n - k - 1, p_ws()); tail(a, q.skip(k), n - k, 1); assert(q.skip(k).skip(1).skip(used(a.skip(1), ws(a.skip(1)))) =~= q.skip(used(r, g_sep(r, c)->0)));
}
// no separator, when the whitespace and the char after it are the same
proof fn l_nosep(r: Seq<char>, q: Seq<char>, c: char, n: int) requires agree(r, q, n), g_sep(r, c) is None, used(r, ws(r)) <= n ensures g_sep(q, c) is None
{ left_ws(r); let k = used(r, ws(r)); l_dropw(r, q, n, p_ws()); tail(r, q, n, k); l_start(ws(r), q.skip(k), n - k); }
proof fn l_bool(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_bool(r) is Ok, used(r, g_bool(r)->Ok_1) <= n ensures same(g_bool(r), g_bool(q), r, q)
{
    reveal_strlit("true"); reveal_strlit("false"); let k = used(r, g_bool(r)->Ok_1); tail(r, q, n, k); l_start(r.skip(k), q.skip(k), n - k);
    if starts_with(r, "true"@) { assert(k == 4); assert(q.take(4) =~= r.take(4)); }
    else { assert(k == 5); assert(q.take(5) =~= r.take(5)); assert(r.take(5)[0] == "false"@[0]); if starts_with(q, "true"@) { assert(q.take(4)[0] == "true"@[0]); assert(false); } }
}
proof fn bool_head(r: Seq<char>) requires r.len() == 0 || (r[0] != 't' && r[0] != 'f') ensures g_bool(r) is No
{ reveal_strlit("true"); reveal_strlit("false"); if starts_with(r, "true"@) { assert(r.take(4)[0] == "true"@[0]); } if starts_with(r, "false"@) { assert(r.take(5)[0] == "false"@[0]); } }
proof fn word_chars() ensures forall|i: int| 0 <= i < "true"@.len() ==> identc(#[trigger] "true"@[i]), forall|i: int| 0 <= i < "false"@.len() ==> identc(#[trigger] "false"@[i]), "true"@.len() == 4, "false"@.len() == 5
{
    char_classes(); reveal_strlit("true"); reveal_strlit("false");
    assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
    assert(is_alpha('t') && is_alpha('r') && is_alpha('u') && is_alpha('e') && is_alpha('f') && is_alpha('a') && is_alpha('l') && is_alpha('s'));
}
// a word in front of a char that is no part of it is the same word in both
proof fn l_word(r: Seq<char>, q: Seq<char>, n: int, k: int, w: Seq<char>)
    requires agree(r, q, n), 0 <= k < n, !identc(r[k]), forall|i: int| 0 <= i < w.len() ==> identc(#[trigger] w[i])
    ensures starts_with(r, w) == starts_with(q, w), starts_with(r, w) ==> w.len() <= k && (r.skip(w.len() as int).len() > 0 && identc(r.skip(w.len() as int)[0])) == (q.skip(w.len() as int).len() > 0 && identc(q.skip(w.len() as int)[0]))
{
    assert(r[k] == q[k]);
    if starts_with(r, w) { if w.len() > k { assert(r.take(w.len() as int)[k] == w[k]); assert(identc(w[k])); } assert(r.take(w.len() as int) =~= q.take(w.len() as int)); assert(r[w.len() as int] == q[w.len() as int]); }
    if starts_with(q, w) { if w.len() > k { assert(q.take(w.len() as int)[k] == w[k]); assert(identc(w[k])); } assert(r.take(w.len() as int) =~= q.take(w.len() as int)); assert(r[w.len() as int] == q[w.len() as int]); }
}
proof fn l_nobool(r: Seq<char>, q: Seq<char>, n: int, k: int) requires agree(r, q, n), 0 <= k < n, !identc(r[k]), g_bool(r) is No ensures g_bool(q) is No
{ word_chars(); l_word(r, q, n, k, "true"@); l_word(r, q, n, k, "false"@); }

proof fn l_value(r: Seq<char>, q: Seq<char>, n: int)
    requires agree(r, q, n), g_value(none(), r) is Ok, used(r, g_value(none(), r)->Ok_1) <= n
    ensures same(g_value(none(), r), g_value(none(), q), r, q) /*@ T02 */
    decreases r.len(), 3nat
{
    s_value(r); l_start(r, q, n); s_char(r); s_string(r); s_number(r); s_named(r); s_unnamed(r); s_bits(r); s_variant(r); s_variant_ident(r); s_string(q); s_number(q); s_named(q); s_unnamed(q);
    char_classes(); let r0 = r[0];
    assert(first_custom(none(), r) is Declines); assert(first_custom(none(), q) is Declines);
    if g_bool(r) is Ok { l_bool(r, q, n); }
    else if starts(r, '\'') { bool_head(r); bool_head(q); l_char(r, q, n); }
    else if starts(r, '"') { bool_head(r); bool_head(q); l_string(r, q, n); }
    else if !(g_number(r) is No) { bool_head(r); bool_head(q); l_number(r, q, n); }
    else if starts(r, '{') { bool_head(r); bool_head(q); l_named(r, q, n); }
    else if starts(r, '(') { bool_head(r); bool_head(q); l_unnamed(r, q, n); }
    else if starts(r, '<') { bool_head(r); bool_head(q); l_bits(r, q, n); }
    else { l_variant(r, q, n); l_variant_nobool(r, q, n); }
}
proof fn l_variant_nobool(r: Seq<char>, q: Seq<char>, n: int) requires agree(r, q, n), g_bool(r) is No, g_variant(none(), r) is Ok, used(r, g_variant(none(), r)->Ok_1) <= n ensures g_bool(q) is No
{
    char_classes(); l_start(r, q, n); s_variant(r); s_variant_ident(r); s_istring(r); s_ident(r);
    if g_istring(r) is Some { bool_head(q); }
    else {
        let a = (g_ident(r)->0).1; let k = used(r, a); let b = ws(a); left_ws(a); s_named(b); s_unnamed(b); left_trans(r, a, b);
        let c = dropw(r, p_alpha()); dropw_len(r, p_alpha()); dropw_len(c, p_ident());
        assert(!p_ident()(a[0])); assert(a[0] == r[k]);
        l_nobool(r, q, n, k);
    }
}
// a variant is a name and a composite
proof fn variant_is(r: Seq<char>)
    ensures g_variant(none(), r) is Ok <==> (g_variant_ident(r) is Some && ({ let b = ws((g_variant_ident(r)->0).1); (starts(b, '{') && g_named(none(), b) is Ok) || (starts(b, '(') && g_unnamed(none(), b) is Ok) })),
        g_variant(none(), r) is Ok ==> ({ let b = ws((g_variant_ident(r)->0).1); g_variant(none(), r) == (if starts(b, '{') { PR::Ok(SV::Var((g_variant_ident(r)->0).0, g_named(none(), b)->Ok_0), g_named(none(), b)->Ok_1) } else { PR::Ok(SV::Var((g_variant_ident(r)->0).0, g_unnamed(none(), b)->Ok_0), g_unnamed(none(), b)->Ok_1) }) }),
{ s_variant_ident(r); if g_variant_ident(r) is Some { let a = (g_variant_ident(r)->0).1; left_ws(a); s_named(ws(a)); s_unnamed(ws(a)); } }
proof fn l_variant(r: Seq<char>, q: Seq<char>, n: int)
    requires agree(r, q, n), g_variant(none(), r) is Ok, used(r, g_variant(none(), r)->Ok_1) <= n
    ensures same(g_variant(none(), r), g_variant(none(), q), r, q) decreases r.len(), 2nat
{
    hide(g_variant); hide(g_named); hide(g_unnamed); hide(g_variant_ident); hide(dropw);
    s_variant(r); s_variant_ident(r); variant_is(r); variant_is(q);
    let a = (g_variant_ident(r)->0).1; let b = ws(a); left_ws(a); s_named(b); s_unnamed(b); left_trans(r, a, b); ascii_ws();
    let k = used(r, a); let j = used(r, b);
    let m = if starts(b, '{') { g_named(none(), b)->Ok_1 } else { g_unnamed(none(), b)->Ok_1 };
    assert(starts(b, '{') || starts(b, '('));
    assert(m == g_variant(none(), r)->Ok_1);
    if starts(a, '"') { quote_stays(a); assert(false); }
    l_variant_ident(r, q, n);
    tail(r, q, n, k); l_dropw(a, q.skip(k), n - k, p_ws()); assert(q.skip(k).skip(j - k) =~= q.skip(j));
    tail(r, q, n, j); let d = q.skip(j); assert(ws(q.skip(k)) == d); l_start(b, d, n - j);
    if starts(b, '{') { l_named(b, d, n - j); } else { l_unnamed(b, d, n - j); }
    assert(d.skip(used(b, m)) =~= q.skip(used(r, m)));
}
proof fn quote_stays(a: Seq<char>) requires starts(a, '"') ensures ws(a) == a { ascii_ws(); assert(!p_ws()(a[0])); }
proof fn l_named(r: Seq<char>, q: Seq<char>, n: int)
    requires agree(r, q, n), starts(r, '{'), g_named(none(), r) is Ok, used(r, g_named(none(), r)->Ok_1) <= n
    ensures same(g_named(none(), r), g_named(none(), q), r, q) decreases r.len(), 1nat
{
    s_named(r); step1(r, q, n); left_ws(r.skip(1)); let a = ws(r.skip(1)); assert(left(r, r.skip(1))); left_trans(r, r.skip(1), a); let k = used(r, a); let z = g_named(none(), r)->Ok_1;
    s_fields(a, false);
    if starts(a, '}') {
        l_dropw(r.skip(1), q.skip(1), n - 1, p_ws()); assert(q.skip(1).skip(k - 1) =~= q.skip(k)); tail(r, q, n, k); step1(a, q.skip(k), n - k); assert(q.skip(k).skip(1) =~= q.skip(k + 1));
    } else {
        let m = g_fields(none(), a, false)->Ok_1; let e = ws(m); left_ws(m); left_trans(r, a, m); left_trans(r, m, e); let i = used(r, m); let j = used(r, e);
        assert(z == e.skip(1)); assert(j < n);
        l_dropw(r.skip(1), q.skip(1), n - 1, p_ws()); assert(q.skip(1).skip(k - 1) =~= q.skip(k)); tail(r, q, n, k); let b = q.skip(k);
        l_start(a, b, n - k);
        l_fields(a, b, false, n - k); let w = q.skip(i); assert(b.skip(i - k) =~= w);
        tail(r, q, n, i); l_dropw(m, w, n - i, p_ws()); assert(w.skip(j - i) =~= q.skip(j)); tail(r, q, n, j); step1(e, q.skip(j), n - j); assert(q.skip(j).skip(1) =~= q.skip(j + 1));
    }
}
proof fn l_unnamed(r: Seq<char>, q: Seq<char>, n: int)
    requires agree(r, q, n), starts(r, '('), g_unnamed(none(), r) is Ok, used(r, g_unnamed(none(), r)->Ok_1) <= n
    ensures same(g_unnamed(none(), r), g_unnamed(none(), q), r, q) decreases r.len(), 1nat
{
    s_unnamed(r); step1(r, q, n); left_ws(r.skip(1)); let a = ws(r.skip(1)); assert(left(r, r.skip(1))); left_trans(r, r.skip(1), a); let k = used(r, a); let z = g_unnamed(none(), r)->Ok_1;
    s_items(a, false);
    if starts(a, ')') {
        l_dropw(r.skip(1), q.skip(1), n - 1, p_ws()); assert(q.skip(1).skip(k - 1) =~= q.skip(k)); tail(r, q, n, k); step1(a, q.skip(k), n - k); assert(q.skip(k).skip(1) =~= q.skip(k + 1));
    } else {
        let m = g_items(none(), a, false)->Ok_1; let e = ws(m); left_ws(m); left_trans(r, a, m); left_trans(r, m, e); let i = used(r, m); let j = used(r, e);
        assert(z == e.skip(1)); assert(j < n);
        l_dropw(r.skip(1), q.skip(1), n - 1, p_ws()); assert(q.skip(1).skip(k - 1) =~= q.skip(k)); tail(r, q, n, k); let b = q.skip(k);
        l_start(a, b, n - k);
        l_items(a, b, false, n - k); let w = q.skip(i); assert(b.skip(i - k) =~= w);
        tail(r, q, n, i); l_dropw(m, w, n - i, p_ws()); assert(w.skip(j - i) =~= q.skip(j)); tail(r, q, n, j); step1(e, q.skip(j), n - j); assert(q.skip(j).skip(1) =~= q.skip(j + 1));
    }
}
proof fn l_items(r: Seq<char>, q: Seq<char>, need: bool, n: int)
    requires agree(r, q, n), g_items(none(), r, need) is Ok, used(r, ws(g_items(none(), r, need)->Ok_1)) < n
    ensures same(g_items(none(), r, need), g_items(none(), q, need), r, q) decreases r.len(), (if need { 4nat } else { 5nat })
{
    s_items(r, need); s_sep(r, ','); let end = g_items(none(), r, need)->Ok_1; left_ws(end); left_trans(r, end, ws(end));
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o {
        None => { l_nosep(r, q, ',', n); assert(q =~= q.skip(0)); }
        Some(a) => {
            left_self(r); assert(left(r, a));
            s_value(a); let m = g_value(none(), a)->Ok_1; s_items(m, true); left_ws(end);
            left_trans(r, a, m);
            let k = used(r, a); let i = used(r, m); let b = q.skip(k); assert(q =~= q.skip(0));
            if need { l_sep(r, q, ',', n); }
            tail(r, q, n, k); l_value(a, b, n - k); let w = q.skip(i); assert(b.skip(i - k) =~= w);
            tail(r, q, n, i); l_items(m, w, true, n - i); assert(w.skip(used(m, end)) =~= q.skip(used(r, end)));
        }
    }
}
proof fn l_field(r: Seq<char>, q: Seq<char>, n: int)
    requires agree(r, q, n), g_field(none(), r) is Ok, used(r, g_field(none(), r)->Ok_1) <= n
    ensures same(g_field(none(), r), g_field(none(), q), r, q) decreases r.len(), 4nat
{
    s_field_name(r); s_field(r); let a = g_field_name(r)->Ok_1; s_sep(a, ':'); let b = g_sep(a, ':')->0; s_value(b); let m = g_value(none(), b)->Ok_1; left_trans(r, a, b); left_trans(r, b, m);
    let k = used(r, a); let j = used(r, b);
    l_field_name(r, q, n); tail(r, q, n, k); l_sep(a, q.skip(k), ':', n - k); assert(q.skip(k).skip(j - k) =~= q.skip(j));
    tail(r, q, n, j); l_value(b, q.skip(j), n - j); assert(q.skip(j).skip(used(b, m)) =~= q.skip(used(r, m)));
}
proof fn l_fields(r: Seq<char>, q: Seq<char>, need: bool, n: int)
    requires agree(r, q, n), g_fields(none(), r, need) is Ok, used(r, ws(g_fields(none(), r, need)->Ok_1)) < n
    ensures same(g_fields(none(), r, need), g_fields(none(), q, need), r, q) decreases r.len(), (if need { 5nat } else { 6nat })
{
    s_fields(r, need); s_sep(r, ','); let end = g_fields(none(), r, need)->Ok_1; left_ws(end); left_trans(r, end, ws(end));
    let o = if need { g_sep(r, ',') } else { Some(r) };
    match o {
        None => { l_nosep(r, q, ',', n); assert(q =~= q.skip(0)); }
        Some(a) => {
            left_self(r); assert(left(r, a));
            s_field(a); let m = g_field(none(), a)->Ok_1; s_fields(m, true); left_ws(end);
            left_trans(r, a, m);
            let k = used(r, a); let i = used(r, m); let b = q.skip(k); assert(q =~= q.skip(0));
            if need { l_sep(r, q, ',', n); }
            tail(r, q, n, k); l_field(a, b, n - k); let w = q.skip(i); assert(b.skip(i - k) =~= w);
            tail(r, q, n, i); l_fields(m, w, true, n - i); assert(w.skip(used(m, end)) =~= q.skip(used(r, end)));
        }
    }
}
// in the words of the property: x is consumed, and the texts go on with the same char or both end
proof fn depends_on_consumed(x: Seq<char>, y: Seq<char>, z: Seq<char>, v: SV)
    requires g_value(none(), x + y) == PR::Ok(v, y), (y.len() == 0 && z.len() == 0) || (y.len() > 0 && z.len() > 0 && y[0] == z[0])
    ensures g_value(none(), x + z) == PR::Ok(v, z) /*@ T02 */
{
    let n = x.len() as int;
    assert(agree(x + y, x + z, n)) by { if y.len() > 0 { assert((x + y)[n] == y[0]); assert((x + z)[n] == z[0]); } }
    l_value(x + y, x + z, n); assert((x + z).skip(n) =~= z);
}
"""


def build(b):
    u_escapes.build(b)
    lib_value.types(b)
    b.emit(lib_text.STR)
    lib_text.parse_errors(b)
    b.emit(lib_tokens.GHOST)
    b.emit(lib_tokens.CHARS)
    b.emit("pub open spec fn suffix_of(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) }")
    b.emit(u_parse.GRAMMAR)
    b.emit(LEMMAS)
