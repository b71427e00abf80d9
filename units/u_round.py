"""Printing and reading back: lemmas over the contracts of the printer and the parser (T01, T03, T08)."""
from units import lib_value, lib_text, lib_tokens, u_escapes, u_parse, u_print
PROPS = ["T01", "T03"]

NORM = """
// what is read back: the value, where a non-negative signed number is the same unsigned number
spec fn nsp(p: SP) -> SP { match p { SP::I128(n) => if n >= 0 { SP::U128(n as u128) } else { p }, x => x } }
spec fn nv<T>(v: Value<T>) -> SV decreases v { nvd(v.value) }
spec fn nvd<T>(v: ValueDef<T>) -> SV decreases v { match v { ValueDef::Composite(c) => SV::Comp(nvc(c)), ValueDef::Variant(x) => SV::Var(x.name@, nvc(x.values)), ValueDef::BitSequence(b) => SV::Bits(b.bits()), ValueDef::Primitive(p) => SV::Prim(nsp(sp(p))) } }
spec fn nvc<T>(c: Composite<T>) -> SC decreases c {
    match c {
        Composite::Named(v) => SC::Named(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { (v@[i].0@, nv(v@[i].1)) } else { arbitrary() })),
        Composite::Unnamed(v) => SC::Unnamed(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { nv(v@[i]) } else { arbitrary() })),
    }
}
spec fn items_from<T>(v: Vec<Value<T>>, i: int) -> Seq<SV> { Seq::new((v@.len() - i) as nat, |k: int| nv(v@[i + k])) }
spec fn fields_from<T>(v: Vec<(String, Value<T>)>, i: int) -> Seq<(Seq<char>, SV)> { Seq::new((v@.len() - i) as nat, |k: int| (v@[i + k].0@, nv(v@[i + k].1))) }
// no signed number that is not negative
spec fn exact<T>(v: Value<T>) -> bool decreases v { exact_def(v.value) }
spec fn exact_def<T>(v: ValueDef<T>) -> bool decreases v { match v { ValueDef::Composite(c) => exact_comp(c), ValueDef::Variant(x) => exact_comp(x.values), ValueDef::BitSequence(b) => true, ValueDef::Primitive(p) => match p { Primitive::I128(n) => n < 0, _ => true } } }
spec fn exact_comp<T>(c: Composite<T>) -> bool decreases c {
    match c { Composite::Named(v) => forall|i: int| 0 <= i < v@.len() ==> exact((#[trigger] v@[i]).1), Composite::Unnamed(v) => forall|i: int| 0 <= i < v@.len() ==> exact(#[trigger] v@[i]) }
}
proof fn same_value<T>(v: Value<T>) requires exact(v) ensures nv(v) == sv(v) decreases v, 2int { same_def(v.value); }
proof fn same_def<T>(v: ValueDef<T>) requires exact_def(v) ensures nvd(v) == svd(v) decreases v, 1int
{ match v { ValueDef::Composite(c) => { same_comp(c); } ValueDef::Variant(x) => { same_comp(x.values); } _ => {} } }
proof fn same_comp<T>(c: Composite<T>) requires exact_comp(c) ensures nvc(c) == sc(c) decreases c
{
    match c {
        Composite::Named(v) => {
            assert(decreases_to!(c => c->Named_0)); assert(c->Named_0 == v);
            assert forall|i: int| 0 <= i < v@.len() implies nv((#[trigger] v@[i]).1) == sv(v@[i].1) by { assert(decreases_to!(v => v@[i])); same_value(v@[i].1); }
            assert(nvc(c)->Named_0 =~= sc(c)->Named_0);
        }
        Composite::Unnamed(v) => {
            assert(decreases_to!(c => c->Unnamed_0)); assert(c->Unnamed_0 == v);
            assert forall|i: int| 0 <= i < v@.len() implies nv(#[trigger] v@[i]) == sv(v@[i]) by { assert(decreases_to!(v => v@[i])); same_value(v@[i]); }
            assert(nvc(c)->Unnamed_0 =~= sc(c)->Unnamed_0);
        }
    }
}
"""

LEAVES = """
proof fn after(x: Seq<char>, rest: Seq<char>) ensures (x + rest).skip(x.len() as int) == rest, (x + rest).take(x.len() as int) == x, x.len() > 0 ==> (x + rest)[0] == x[0] { assert((x + rest).skip(x.len() as int) =~= rest); assert((x + rest).take(x.len() as int) =~= x); }
proof fn assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
// --- strings and chars
proof fn escs_front(s: Seq<char>) requires s.len() > 0 ensures r_escs(s) == r_esc(s[0]) + r_escs(s.skip(1)) decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(Seq::<char>::empty() + r_esc(s[0]) =~= r_esc(s[0]) + Seq::empty()); }
    else {
        escs_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assoc(r_esc(s[0]), r_escs(s.skip(1).drop_last()), r_esc(s.last()));
    }
}
proof fn rt_str(s: Seq<char>, acc: Seq<char>, rest: Seq<char>) ensures g_str(r_escs(s) + (seq!['"'] + rest), acc, false) == PR::Ok(acc + s, rest) decreases s.len()
{
    reveal_with_fuel(g_str, 3);
    let r = r_escs(s) + (seq!['"'] + rest);
    if s.len() == 0 { assert(r =~= seq!['"'] + rest); assert(r.skip(1) =~= rest); assert(acc + s =~= acc); }
    else {
        escs_front(s); let c = s[0]; let tail = r_escs(s.skip(1)) + (seq!['"'] + rest);
        assert(r =~= r_esc(c) + tail); rt_str(s.skip(1), acc.push(c), rest);
        assert(acc.push(c) + s.skip(1) =~= acc + s);
        match esc(c) {
            Some(e) => { escape_then_unescape(c); assert(r[0] == '\\\\'); assert(r.skip(1)[0] == e); assert(r.skip(1).skip(1) =~= tail); }
            None => { unescaped_are_harmless(c); assert(r[0] == c); assert(r.skip(1) =~= tail); }
        }
    }
}
proof fn rt_string(s: Seq<char>, rest: Seq<char>) ensures g_string(r_str(s) + rest) == PR::Ok(s, rest)
{
    let r = r_str(s) + rest; assert(r[0] == '"'); assert(r.skip(1) =~= r_escs(s) + (seq!['"'] + rest));
    rt_str(s, Seq::empty(), rest); assert(Seq::<char>::empty() + s =~= s);
}
proof fn rt_char(c: char, rest: Seq<char>) ensures g_char(r_char(c) + rest) == PR::Ok(c, rest)
{
    let r = r_char(c) + rest;
    match esc(c) {
        Some(e) => { escape_then_unescape(c); assert(r[0] == '\\'' && r[1] == '\\\\' && r[2] == e && r[3] == '\\''); let a = r.skip(1); assert(a[0] == '\\\\'); let b = a.skip(1); assert(b[0] == e); assert(b.skip(1)[0] == '\\''); assert(b.skip(1).skip(1) =~= rest); }
        None => { unescaped_are_harmless(c); assert(r[0] == '\\'' && r[1] == c && r[2] == '\\''); let a = r.skip(1); assert(a[0] == c); assert(a.skip(1)[0] == '\\''); assert(a.skip(1).skip(1) =~= rest); }
    }
}
// --- numbers
spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
// what may follow a value that ends in a letter or digit
spec fn ends(rest: Seq<char>) -> bool { rest.len() == 0 || !identc(rest[0]) }
proof fn udec_digits(n: nat) ensures udec(n).len() > 0, all_digits(udec(n)), dec(udec(n)) == n decreases n
{
    if n >= 10 {
        udec_digits(n / 10); let s = udec(n); assert(s.drop_last() =~= udec(n / 10)); assert(s.last() == digit(n));
        assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by { if i < s.len() - 1 { assert(udec(n / 10)[i] == s[i]); } }
    } else { let s = udec(n); assert(s.drop_last() =~= Seq::empty()); assert(dec(s.drop_last()) == 0); assert(s.last() == digit(n)); }
}
proof fn rt_digits(d: Seq<char>, rest: Seq<char>, seen: bool)
    requires all_digits(d), ends(rest), seen || d.len() > 0 || rest.len() == 0 || !is_digit(rest[0])
    ensures numrest(d + rest, seen) == rest, digits(d + rest, seen) == d decreases d.len()
{
    char_classes();
    let r = d + rest;
    if d.len() == 0 { assert(r =~= rest); assert(digits(r, seen) =~= d); }
    else { assert(is_digit(d[0])); assert(r[0] == d[0]); assert(r.skip(1) =~= d.skip(1) + rest);
        assert forall|i: int| 0 <= i < d.skip(1).len() implies is_digit(#[trigger] d.skip(1)[i]) by { assert(is_digit(d[i + 1])); }
        rt_digits(d.skip(1), rest, true); assert(seq![d[0]] + d.skip(1) =~= d); }
}
proof fn rt_number(p: SP, rest: Seq<char>)
    requires p is U128 || p is I128, ends(rest)
    ensures g_number(r_prim(p) + rest) == PR::Ok(nsp(p), rest), r_prim(p).len() > 0, is_digit(r_prim(p)[0]) || r_prim(p)[0] == '-'
{
    match p {
        SP::U128(n) => { udec_digits(n as nat); let d = udec(n as nat); assert(is_digit(d[0])); rt_digits(d, rest, false); assert((d + rest)[0] == d[0]); }
        SP::I128(n) => {
            if n >= 0 { udec_digits(n as nat); let d = udec(n as nat); assert(is_digit(d[0])); rt_digits(d, rest, false); assert((d + rest)[0] == d[0]); }
            else { let k = (-(n as int)) as nat; udec_digits(k); let d = udec(k); let r = r_prim(p) + rest; assert(r[0] == '-'); assert(r.skip(1) =~= d + rest); rt_digits(d, rest, false); }
        }
        _ => {}
    }
}
// --- bits
proof fn rt_bitsin(b: Seq<bool>, rest: Seq<char>) requires starts(rest, '>') ensures dropw(r_bitsin(b) + rest, p_bit()) == rest, bits_in(r_bitsin(b) + rest) == b decreases b.len()
{
    let r = r_bitsin(b) + rest;
    if b.len() == 0 { assert(r =~= rest); assert(bits_in(r) =~= b); }
    else { assert(r[0] == (if b[0] { '1' } else { '0' })); assert(r.skip(1) =~= r_bitsin(b.skip(1)) + rest); rt_bitsin(b.skip(1), rest); assert(seq![b[0]] + b.skip(1) =~= b); }
}
proof fn rt_bits(b: Seq<bool>, rest: Seq<char>) ensures g_bits(r_bits(b) + rest) == PR::Ok(b, rest)
{ let r = r_bits(b) + rest; assert(r[0] == '<'); let e = seq!['>'] + rest; assert(r.skip(1) =~= r_bitsin(b) + e); rt_bitsin(b, e); assert(e.skip(1) =~= rest); }
// --- whitespace and names
spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
proof fn rt_ws(w: Seq<char>, x: Seq<char>) requires all_ws(w), x.len() == 0 || !is_ws(x[0]) ensures ws(w + x) == x
{ let r = w + x; assert forall|i: int| 0 <= i < w.len() implies p_ws()(#[trigger] r[i]) by { assert(is_ws(w[i])); } if x.len() > 0 { assert(r[w.len() as int] == x[0]); } dropw_is(r, p_ws(), w.len() as int); after(w, x); }
proof fn rt_ident(s: Seq<char>, rest: Seq<char>) requires ident_text(s), ends(rest) ensures g_ident(s + rest) == Some((s, rest))
{
    let r = s + rest; let a = dropw(r, p_alpha()); char_classes(); dropw_len(r, p_alpha());
    assert(r[0] == s[0]);
    let n = r.len() - a.len();
    if n == 0 { assert(a =~= r); assert(p_alpha()(a[0])); assert(false); }
    assert(n <= s.len()) by { if n > s.len() { assert(p_alpha()(r[s.len() as int])); assert(r[s.len() as int] == rest[0]); } }
    let k = s.len() - n;
    assert forall|i: int| 0 <= i < k implies p_ident()(#[trigger] a[i]) by { assert(a[i] == s[n + i]); }
    if rest.len() > 0 { assert(a[k] == rest[0]); }
    dropw_is(a, p_ident(), k);
    assert(a.skip(k) =~= rest); after(s, rest);
}
proof fn rt_name(s: Seq<char>, rest: Seq<char>) requires ends(rest) ensures g_field_name(r_name(s) + rest) == PR::Ok(s, rest), r_name(s).len() > 0, !is_ws(r_name(s)[0])
{
    char_classes(); ascii_ws();
    if ident_text(s) { rt_ident(s, rest); assert((s + rest)[0] == s[0]); assert(is_alpha(s[0])); } else { rt_string(s, rest); assert(r_str(s)[0] == '"'); }
}
proof fn rep_ws(s: Seq<char>, n: nat) requires all_ws(s) ensures all_ws(rep(s, n)) decreases n { if n > 0 { rep_ws(s, (n - 1) as nat); } }
spec fn ws_cfg<T>(g: Cfg<T>) -> bool { g.custom.len() == 0 && g.ctx is None && all_ws(g.lead) && all_ws(g.step) }
proof fn layout_ws<T>(g: Cfg<T>, st: FormatStyle) requires ws_cfg(g) ensures all_ws(l_sep(g, st)), all_ws(l_newline(g, st)), all_ws(l_space(st))
{ ascii_ws(); match st { FormatStyle::Pretty(n) => { rep_ws(g.step, n as nat); } _ => {} } }
"""

TREE = """
spec fn none() -> Seq<CustomParser> { Seq::empty() }
// items i.. after the first one, each with its comma
spec fn t_items<T>(g: Cfg<T>, v: Vec<Value<T>>, i: nat, st: FormatStyle) -> Seq<char> decreases v@.len() - i { if i >= v@.len() { Seq::empty() } else { (seq![','] + l_sep(g, st)) + (r_val(g, v@[i as int], st) + t_items(g, v, i + 1, st)) } }
proof fn items_split<T>(g: Cfg<T>, v: Vec<Value<T>>, k: nat, st: FormatStyle) requires 1 <= k <= v@.len() ensures r_items(g, v, v@.len(), st) == r_items(g, v, k, st) + t_items(g, v, k, st) decreases v@.len() - k
{
    if k < v@.len() { items_split(g, v, k + 1, st); let a = r_items(g, v, k, st); let c = r_comma(g, k + 1, st); let x = r_val(g, v@[k as int], st); let t = t_items(g, v, k + 1, st);
        assert((a + c + x) + t =~= a + (c + (x + t))); }
    else { assert(r_items(g, v, k, st) + t_items(g, v, k, st) =~= r_items(g, v, k, st)); }
}
spec fn r_field<T>(g: Cfg<T>, f: (String, Value<T>), st: FormatStyle) -> Seq<char> { r_name(f.0@) + (seq![':'] + (l_space(st) + r_val(g, f.1, st))) }
spec fn t_fields<T>(g: Cfg<T>, v: Vec<(String, Value<T>)>, i: nat, st: FormatStyle) -> Seq<char> decreases v@.len() - i { if i >= v@.len() { Seq::empty() } else { (seq![','] + l_sep(g, st)) + (r_field(g, v@[i as int], st) + t_fields(g, v, i + 1, st)) } }
proof fn fields_split<T>(g: Cfg<T>, v: Vec<(String, Value<T>)>, k: nat, st: FormatStyle) requires 1 <= k <= v@.len() ensures r_fields(g, v, v@.len(), st) == r_fields(g, v, k, st) + t_fields(g, v, k, st) decreases v@.len() - k
{
    if k < v@.len() { fields_split(g, v, k + 1, st); let a = r_fields(g, v, k, st); let c = r_comma(g, k + 1, st); let n = r_name(v@[k as int].0@); let s = l_space(st); let x = r_val(g, v@[k as int].1, st); let t = t_fields(g, v, k + 1, st);
        assert((a + c + n + seq![':'] + s + x) + t =~= a + (c + ((n + (seq![':'] + (s + x))) + t))); }
    else { assert(r_fields(g, v, k, st) + t_fields(g, v, k, st) =~= r_fields(g, v, k, st)); }
}
// the first char of a printed value
spec fn head(c: char) -> bool { c == '"' || c == '\\'' || c == '<' || c == '(' || c == '{' || c == '-' || is_digit(c) || is_alpha(c) }
proof fn head_not_ws(c: char) requires head(c) ensures !is_ws(c) { char_classes(); ascii_ws(); }

proof fn rt_val<T>(g: Cfg<T>, v: Value<T>, st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain(v), ends(rest)
    ensures g_value(none(), r_val(g, v, st) + rest) == PR::Ok(nv(v), rest), r_val(g, v, st).len() > 0, head(r_val(g, v, st)[0])
    decreases v, 4int
{ assert(r_val(g, v, st) =~= r_def(g, v.value, st)); rt_def(g, v.value, st, rest); }

proof fn not_bool(r: Seq<char>) requires r.len() == 0 || (r[0] != 't' && r[0] != 'f') ensures g_bool(r) is No
{ reveal_strlit("true"); reveal_strlit("false"); if r.len() > 0 { if starts_with(r, "true"@) { assert(r.take(4)[0] == r[0]); assert("true"@[0] == 't'); } if starts_with(r, "false"@) { assert(r.take(5)[0] == r[0]); assert("false"@[0] == 'f'); } } }
// no number starts here
proof fn not_number(r: Seq<char>) requires r.len() == 0 || (r[0] != '+' && r[0] != '-' && !is_digit(r[0])) ensures g_number(r) is No { }

proof fn rt_def<T>(g: Cfg<T>, v: ValueDef<T>, st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain_def(v), ends(rest)
    ensures g_value(none(), r_def(g, v, st) + rest) == PR::Ok(nvd(v), rest), r_def(g, v, st).len() > 0, head(r_def(g, v, st)[0])
    decreases v, 3int
{
    char_classes();
    let r = r_def(g, v, st) + rest;
    match v {
        ValueDef::Primitive(p) => { rt_prim(sp(p), rest); }
        ValueDef::BitSequence(b) => { rt_bits(b.bits(), rest); assert(r[0] == '<'); not_bool(r); not_number(r); }
        ValueDef::Composite(c) => { rt_comp(g, c, st, rest); not_bool(r); not_number(r); }
        ValueDef::Variant(x) => { rt_variant(g, x, st, rest); }
    }
}
proof fn rt_prim(p: SP, rest: Seq<char>)
    requires !(p is U256), !(p is I256), ends(rest)
    ensures g_value(none(), r_prim(p) + rest) == PR::Ok(SV::Prim(nsp(p)), rest), r_prim(p).len() > 0, head(r_prim(p)[0])
{
    char_classes();
    let r = r_prim(p) + rest;
    match p {
        SP::Bool(b) => { reveal_strlit("true"); reveal_strlit("false"); after(r_prim(p), rest);
            if !b { if starts_with(r, "true"@) { assert(r.take(4)[0] == r[0]); assert("true"@[0] == 't'); assert("false"@[0] == 'f'); } } }
        SP::Char(c) => { rt_char(c, rest); assert(r[0] == '\\''); not_bool(r); }
        SP::Str(s) => { rt_string(s, rest); assert(r[0] == '"'); not_bool(r); }
        _ => { rt_number(p, rest); assert(r[0] == r_prim(p)[0]); not_bool(r); }
    }
}
proof fn named_shape(r: Seq<char>, a: Seq<char>, fs: Seq<(Seq<char>, SV)>, end: Seq<char>, rest: Seq<char>)
    requires starts(r, '{'), ws(r.skip(1)) == a, a.len() < r.len(), !starts(a, '}'), g_fields(none(), a, false) == PR::Ok(fs, end), starts(ws(end), '}'), ws(end).skip(1) == rest
    ensures g_named(none(), r) == PR::Ok(SC::Named(fs), rest) { }
proof fn unnamed_shape(r: Seq<char>, a: Seq<char>, fs: Seq<SV>, end: Seq<char>, rest: Seq<char>)
    requires starts(r, '('), ws(r.skip(1)) == a, a.len() < r.len(), !starts(a, ')'), g_items(none(), a, false) == PR::Ok(fs, end), starts(ws(end), ')'), ws(end).skip(1) == rest
    ensures g_unnamed(none(), r) == PR::Ok(SC::Unnamed(fs), rest) { }
proof fn rt_named<T>(g: Cfg<T>, v: Vec<(String, Value<T>)>, st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain_comp(Composite::Named(v)), v@.len() > 0
    ensures ({ let d = deeper(st); let t = seq!['{'] + l_sep(g, d) + r_fields(g, v, v@.len(), d) + l_sep(g, st) + seq!['}'];
        g_named(none(), t + rest) == PR::Ok(SC::Named(fields_from(v, 0)), rest) })
    decreases v, v@.len() + 1, 0int
{
    hide(g_value); hide(g_named); hide(g_unnamed); hide(g_items); hide(g_fields);
    ascii_ws(); char_classes(); let d = deeper(st); layout_ws(g, st); layout_ws(g, d);
    fields_split(g, v, 1, d);
    let end = l_sep(g, st) + (seq!['}'] + rest);
    let f = r_field(g, v@[0], d); let t = t_fields(g, v, 1, d); let a = (f + t) + end;
    let r = seq!['{'] + l_sep(g, d) + r_fields(g, v, v@.len(), d) + l_sep(g, st) + seq!['}'] + rest;
    assert(r_fields(g, v, 1, d) =~= f) by { one_field(g, v, d); }
    assert(r =~= seq!['{'] + (l_sep(g, d) + a));
    assert(r[0] == '{'); assert(r.skip(1) =~= l_sep(g, d) + a);
    name_head(v@[0].0@);
    assert(f[0] == r_name(v@[0].0@)[0]); assert(a[0] == f[0]);
    rt_ws(l_sep(g, d), a);
    rt_ws(l_sep(g, st), seq!['}'] + rest);
    assert(closes(end)) by { if l_sep(g, st).len() > 0 { assert(end[0] == l_sep(g, st)[0]); assert(is_ws(l_sep(g, st)[0])); } else { assert(end[0] == '}'); } }
    rt_fields(g, v, 0, d, end, false);
    assert((seq!['}'] + rest).skip(1) =~= rest);
    assert(a.len() < r.len());
    assert(ws(r.skip(1)) == a);
    assert(g_fields(none(), a, false) == PR::Ok(fields_from(v, 0), end));
    assert(starts(ws(end), '}'));
    named_shape(r, a, fields_from(v, 0), end, rest);
}
proof fn one_field<T>(g: Cfg<T>, v: Vec<(String, Value<T>)>, d: FormatStyle) requires v@.len() > 0 ensures r_fields(g, v, 1, d) == r_field(g, v@[0], d)
{
    let n = r_name(v@[0].0@); let s = l_space(d); let x = r_val(g, v@[0].1, d);
    reveal_with_fuel(r_fields, 2);
    assert(r_fields(g, v, 0, d) =~= Seq::empty());
    assert(r_fields(g, v, 1, d) =~= n + (seq![':'] + (s + x)));
}
proof fn one_item<T>(g: Cfg<T>, v: Vec<Value<T>>, d: FormatStyle) requires v@.len() > 0 ensures r_items(g, v, 1, d) == r_val(g, v@[0], d)
{ reveal_with_fuel(r_items, 2); assert(r_items(g, v, 0, d) =~= Seq::empty()); assert(r_items(g, v, 1, d) =~= r_val(g, v@[0], d)); }
proof fn rt_unnamed<T>(g: Cfg<T>, v: Vec<Value<T>>, st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain_comp(Composite::Unnamed(v)), v@.len() > 0
    ensures ({ let d = deeper(st); let t = seq!['('] + l_newline(g, d) + r_items(g, v, v@.len(), d) + l_newline(g, st) + seq![')'];
        g_unnamed(none(), t + rest) == PR::Ok(SC::Unnamed(items_from(v, 0)), rest) })
    decreases v, v@.len() + 1, 0int
{
    hide(g_value); hide(g_named); hide(g_unnamed); hide(g_items); hide(g_fields);
    ascii_ws(); char_classes(); let d = deeper(st); layout_ws(g, st); layout_ws(g, d);
    items_split(g, v, 1, d);
    let end = l_newline(g, st) + (seq![')'] + rest);
    let f = r_val(g, v@[0], d); let t = t_items(g, v, 1, d); let a = (f + t) + end;
    let r = seq!['('] + l_newline(g, d) + r_items(g, v, v@.len(), d) + l_newline(g, st) + seq![')'] + rest;
    assert(r_items(g, v, 1, d) =~= f) by { one_item(g, v, d); }
    assert(r =~= seq!['('] + (l_newline(g, d) + a));
    assert(r[0] == '('); assert(r.skip(1) =~= l_newline(g, d) + a);
    rt_ws(l_newline(g, st), seq![')'] + rest);
    assert(closes(end)) by { if l_newline(g, st).len() > 0 { assert(end[0] == l_newline(g, st)[0]); assert(is_ws(l_newline(g, st)[0])); } else { assert(end[0] == ')'); } }
    rt_items(g, v, 0, d, end, false);
    assert(a[0] == f[0]); head_not_ws(f[0]); rt_ws(l_newline(g, d), a);
    assert((seq![')'] + rest).skip(1) =~= rest);
    assert(a.len() < r.len());
    assert(ws(r.skip(1)) == a);
    assert(g_items(none(), a, false) == PR::Ok(items_from(v, 0), end));
    assert(starts(ws(end), ')'));
    unnamed_shape(r, a, items_from(v, 0), end, rest);
}
proof fn rt_comp<T>(g: Cfg<T>, c: Composite<T>, st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain_comp(c)
    ensures r_comp(g, c, st).len() > 0,
        c is Named ==> r_comp(g, c, st)[0] == '{' && g_named(none(), r_comp(g, c, st) + rest) == PR::Ok(nvc(c), rest),
        c is Unnamed ==> r_comp(g, c, st)[0] == '(' && g_unnamed(none(), r_comp(g, c, st) + rest) == PR::Ok(nvc(c), rest) && g_named(none(), r_comp(g, c, st) + rest) is No
    decreases c, 2int, 0int
{
    ascii_ws(); char_classes();
    let r = r_comp(g, c, st) + rest;
    match c {
        Composite::Named(v) => {
            assert(decreases_to!(c => c->Named_0)); assert(c->Named_0 == v);
            assert(fields_from(v, 0) =~= nvc(c)->Named_0);
            if v@.len() == 0 { assert(r[0] == '{' && r[1] == '}'); let a = r.skip(1); assert(a[0] == '}'); rt_ws(Seq::empty(), a); assert(Seq::<char>::empty() + a =~= a); assert(a.skip(1) =~= rest); assert(nvc(c)->Named_0 =~= Seq::empty()); assert(ws(r.skip(1)) == a); }
            else { rt_named(g, v, st, rest); assert(r_comp(g, c, st)[0] == '{'); }
        }
        Composite::Unnamed(v) => {
            assert(decreases_to!(c => c->Unnamed_0)); assert(c->Unnamed_0 == v);
            assert(items_from(v, 0) =~= nvc(c)->Unnamed_0);
            if v@.len() == 0 { assert(r[0] == '(' && r[1] == ')'); let a = r.skip(1); assert(a[0] == ')'); rt_ws(Seq::empty(), a); assert(Seq::<char>::empty() + a =~= a); assert(a.skip(1) =~= rest); assert(nvc(c)->Unnamed_0 =~= Seq::empty()); assert(ws(r.skip(1)) == a); }
            else { rt_unnamed(g, v, st, rest); assert(r_comp(g, c, st)[0] == '('); assert(r[0] == '('); }
        }
    }
}
proof fn name_head(s: Seq<char>) ensures r_name(s).len() > 0, r_name(s)[0] != '}' { char_classes(); if ident_text(s) { assert(is_alpha(s[0])); } else { assert(r_str(s)[0] == '"'); } }
// what is left after item i: a comma, or the end, which is whitespace and a closing bracket
spec fn closes(end: Seq<char>) -> bool { end.len() > 0 && !identc(end[0]) && ws(end).len() > 0 && ws(end)[0] != ',' }
proof fn plain_item<T>(v: Vec<Value<T>>, i: int) requires plain_comp(Composite::Unnamed(v)), 0 <= i < v@.len() ensures plain(v@[i])
{ let c = Composite::Unnamed(v); reveal_with_fuel(plain_comp, 2); match c { Composite::Unnamed(w) => { assert(w == v); let x = w@[i]; assert(plain(x)); } _ => {} } }
proof fn plain_field<T>(v: Vec<(String, Value<T>)>, i: int) requires plain_comp(Composite::Named(v)), 0 <= i < v@.len() ensures plain(v@[i].1)
{ let c = Composite::Named(v); reveal_with_fuel(plain_comp, 2); match c { Composite::Named(w) => { assert(w == v); let x = w@[i]; assert(plain(x.1)); } _ => {} } }
proof fn items_step(r: Seq<char>, a: Seq<char>, v: SV, m: Seq<char>, vs: Seq<SV>, end: Seq<char>, need: bool)
    requires need ==> g_sep(r, ',') == Some(a) && a.len() < r.len(), !need ==> a == r, g_value(none(), a) == PR::Ok(v, m), m.len() <= a.len(), g_items(none(), m, true) == PR::Ok(vs, end)
    ensures g_items(none(), r, need) == PR::Ok(seq![v] + vs, end) { }
proof fn last_items(end: Seq<char>) requires closes(end) ensures g_items(none(), end, true) == PR::Ok(Seq::<SV>::empty(), end) { }
proof fn rt_items<T>(g: Cfg<T>, v: Vec<Value<T>>, i: nat, st: FormatStyle, end: Seq<char>, need: bool)
    requires ws_cfg(g), plain_comp(Composite::Unnamed(v)), i <= v@.len(), !need ==> i < v@.len(), closes(end)
    ensures g_items(none(), (if need { t_items(g, v, i, st) } else { r_val(g, v@[i as int], st) + t_items(g, v, i + 1, st) }) + end, need) == PR::Ok(items_from(v, i as int), end),
        i < v@.len() ==> r_val(g, v@[i as int], st).len() > 0 && head(r_val(g, v@[i as int], st)[0])
    decreases v, v@.len() - i, (if need { 1int } else { 0int })
{
    hide(g_value); hide(g_items); hide(g_fields); hide(g_field); hide(g_named); hide(g_unnamed);
    char_classes(); ascii_ws(); layout_ws(g, st);
    if i >= v@.len() { last_items(end); assert(Seq::<char>::empty() + end =~= end); assert(items_from(v, i as int) =~= Seq::empty()); }
    else {
        let x = r_val(g, v@[i as int], st); let t = t_items(g, v, i + 1, st) + end; let a = x + t;
        assert(decreases_to!(v => v@[i as int]));
        assert(ends(t)) by { if i + 1 < v@.len() { assert(t[0] == ','); } else { assert(t =~= end); } }
        plain_item(v, i as int); rt_val(g, v@[i as int], st, t);
        rt_items(g, v, i + 1, st, end, true);
        assert(seq![nv(v@[i as int])] + items_from(v, (i + 1) as int) =~= items_from(v, i as int));
        assert((x + t_items(g, v, i + 1, st)) + end =~= a);
        if need {
            let r = t_items(g, v, i, st) + end;
            assert(r =~= seq![','] + (l_sep(g, st) + a)); assert(r[0] == ','); rt_ws(Seq::empty(), r); assert(Seq::<char>::empty() + r =~= r);
            assert(r.skip(1) =~= l_sep(g, st) + a); assert(a[0] == x[0]); head_not_ws(x[0]); rt_ws(l_sep(g, st), a);
            assert(a.len() < r.len()); assert(g_sep(r, ',') == Some(a));
            items_step(r, a, nv(v@[i as int]), t, items_from(v, (i + 1) as int), end, true);
        } else { items_step(a, a, nv(v@[i as int]), t, items_from(v, (i + 1) as int), end, false); }
    }
}
proof fn rt_field<T>(g: Cfg<T>, f: (String, Value<T>), st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain(f.1), ends(rest)
    ensures g_field(none(), r_field(g, f, st) + rest) == PR::Ok((f.0@, nv(f.1)), rest), r_field(g, f, st).len() > 0, !is_ws(r_field(g, f, st)[0])
    decreases f, 1int
{
    char_classes(); ascii_ws(); layout_ws(g, st);
    let x = r_val(g, f.1, st); let a = x + rest; let c = seq![':'] + (l_space(st) + a); let r = r_field(g, f, st) + rest;
    assert(r =~= r_name(f.0@) + c); assert(c[0] == ':');
    rt_name(f.0@, c); assert(r_field(g, f, st)[0] == r_name(f.0@)[0]);
    rt_val(g, f.1, st, rest);
    rt_ws(Seq::empty(), c); assert(Seq::<char>::empty() + c =~= c); assert(c.skip(1) =~= l_space(st) + a);
    assert(a[0] == x[0]); head_not_ws(x[0]); rt_ws(l_space(st), a);
    assert(a.len() < r.len());
}
proof fn fields_step(r: Seq<char>, a: Seq<char>, v: (Seq<char>, SV), m: Seq<char>, vs: Seq<(Seq<char>, SV)>, end: Seq<char>, need: bool)
    requires need ==> g_sep(r, ',') == Some(a) && a.len() < r.len(), !need ==> a == r, g_field(none(), a) == PR::Ok(v, m), m.len() <= a.len(), g_fields(none(), m, true) == PR::Ok(vs, end)
    ensures g_fields(none(), r, need) == PR::Ok(seq![v] + vs, end) { }
proof fn last_fields(end: Seq<char>) requires closes(end) ensures g_fields(none(), end, true) == PR::Ok(Seq::<(Seq<char>, SV)>::empty(), end) { }
proof fn rt_fields<T>(g: Cfg<T>, v: Vec<(String, Value<T>)>, i: nat, st: FormatStyle, end: Seq<char>, need: bool)
    requires ws_cfg(g), plain_comp(Composite::Named(v)), i <= v@.len(), !need ==> i < v@.len(), closes(end)
    ensures g_fields(none(), (if need { t_fields(g, v, i, st) } else { r_field(g, v@[i as int], st) + t_fields(g, v, i + 1, st) }) + end, need) == PR::Ok(fields_from(v, i as int), end)
    decreases v, v@.len() - i, (if need { 1int } else { 0int })
{
    hide(g_value); hide(g_items); hide(g_fields); hide(g_field); hide(g_named); hide(g_unnamed);
    char_classes(); ascii_ws(); layout_ws(g, st);
    if i >= v@.len() { last_fields(end); assert(Seq::<char>::empty() + end =~= end); assert(fields_from(v, i as int) =~= Seq::empty()); }
    else {
        let x = r_field(g, v@[i as int], st); let t = t_fields(g, v, i + 1, st) + end; let a = x + t;
        assert(decreases_to!(v => v@[i as int]));
        assert(ends(t)) by { if i + 1 < v@.len() { assert(t[0] == ','); } else { assert(t =~= end); } }
        plain_field(v, i as int); rt_field(g, v@[i as int], st, t);
        rt_fields(g, v, i + 1, st, end, true);
        assert(seq![(v@[i as int].0@, nv(v@[i as int].1))] + fields_from(v, (i + 1) as int) =~= fields_from(v, i as int));
        assert((x + t_fields(g, v, i + 1, st)) + end =~= a);
        if need {
            let r = t_fields(g, v, i, st) + end;
            assert(r =~= seq![','] + (l_sep(g, st) + a)); assert(r[0] == ','); rt_ws(Seq::empty(), r); assert(Seq::<char>::empty() + r =~= r);
            assert(r.skip(1) =~= l_sep(g, st) + a); assert(a[0] == x[0]); rt_ws(l_sep(g, st), a);
            assert(a.len() < r.len()); assert(g_sep(r, ',') == Some(a));
            fields_step(r, a, (v@[i as int].0@, nv(v@[i as int].1)), t, fields_from(v, (i + 1) as int), end, true);
        } else { fields_step(a, a, (v@[i as int].0@, nv(v@[i as int].1)), t, fields_from(v, (i + 1) as int), end, false); }
    }
}
proof fn bool_words() ensures "true"@ == seq!['t', 'r', 'u', 'e'], "false"@ == seq!['f', 'a', 'l', 's', 'e'], forall|i: int| 0 <= i < 4 ==> identc(#[trigger] "true"@[i]), forall|i: int| 0 <= i < 5 ==> identc(#[trigger] "false"@[i])
{
    char_classes(); reveal_strlit("true"); reveal_strlit("false");
    assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
    assert(is_alpha('t') && is_alpha('r') && is_alpha('u') && is_alpha('e') && is_alpha('f') && is_alpha('a') && is_alpha('l') && is_alpha('s'));
}
// a variant's name, followed by something that is not part of it: no other value starts like this
proof fn rt_vname(s: Seq<char>, a: Seq<char>)
    requires a.len() > 0, ends(a), a[0] != '"'
    ensures r_vname(s).len() > 0, head(r_vname(s)[0]), ({ let r = r_vname(s) + a; g_variant_ident(r) == Some((s, a)) && g_bool(r) is No && !starts(r, '\\'') && !starts(r, '"') && !starts(r, '{') && !starts(r, '(') && !starts(r, '<') && g_number(r) is No })
{
    char_classes();
    let n = r_vname(s); let r = n + a;
    if ident_text(s) && s != "true"@ && s != "false"@ {
        assert(n == s); rt_ident(s, a);
        assert(is_alpha(s[0])); assert(r[0] == s[0]);
        reveal_strlit("true"); reveal_strlit("false");
        bool_words();
        assert(g_bool(r) is No) by {
            if starts_with(r, "true"@) { ident_not(r, s, a, "true"@); }
            if starts_with(r, "false"@) { ident_not(r, s, a, "false"@); }
        }
        if s[0] == 'v' { let q = r.skip(1); if s.len() > 1 { assert(q[0] == s[1]); assert(is_alnum(s[1]) || s[1] == '_'); } else { assert(q[0] == a[0]); } assert(q[0] != '"'); assert(g_string(q) is No); }
        assert(g_istring(r) is None);
    } else {
        assert(n == seq!['v'] + r_str(s)); assert(n[0] == 'v'); assert(r[0] == 'v'); assert(r.skip(1) =~= r_str(s) + a); rt_string(s, a); not_bool(r);
    }
    not_number(r);
}
proof fn rt_variant<T>(g: Cfg<T>, x: Variant<T>, st: FormatStyle, rest: Seq<char>)
    requires ws_cfg(g), plain_comp(x.values)
    ensures ({ let t = r_vname(x.name@) + l_space(st) + r_comp(g, x.values, st); g_value(none(), t + rest) == PR::Ok(SV::Var(x.name@, nvc(x.values)), rest) && t.len() > 0 && head(t[0]) })
    decreases x, 1int, 0int
{
    hide(g_value); hide(g_variant_ident); hide(r_vname); hide(g_bool); hide(g_number); hide(g_named); hide(g_unnamed);
    char_classes(); ascii_ws(); layout_ws(g, st);
    let s = x.name@; let n = r_vname(s); let c = r_comp(g, x.values, st); let b = c + rest; let a = l_space(st) + b; let t = n + l_space(st) + c; let r = t + rest;
    rt_comp(g, x.values, st, rest);
    assert(r =~= n + a); assert(b[0] == c[0]); rt_ws(l_space(st), b);
    assert(a[0] == ' ' || a[0] == '{' || a[0] == '(') by { if l_space(st).len() == 0 { assert(a =~= b); } else { assert(a[0] == l_space(st)[0]); } }
    rt_vname(s, a);
    assert(t[0] == n[0]);
    assert(ws(a) == b);
    assert(g_variant_ident(r) == Some((s, a)));
    assert(b.len() < r.len());
    variant_value(r, s, b, nvc(x.values), rest);
}
proof fn variant_value(r: Seq<char>, s: Seq<char>, b: Seq<char>, c: SC, rest: Seq<char>)
    requires exists|a: Seq<char>| g_variant_ident(r) == Some((s, a)) && #[trigger] ws(a) == b, b.len() < r.len(), g_bool(r) is No, !starts(r, '\\''), !starts(r, '"'), !starts(r, '{'), !starts(r, '('), !starts(r, '<'), g_number(r) is No,
        g_named(none(), b) == PR::Ok(c, rest) || (g_named(none(), b) is No && g_unnamed(none(), b) == PR::Ok(c, rest))
    ensures g_value(none(), r) == PR::Ok(SV::Var(s, c), rest)
{
    assert(first_custom(none(), r) is Declines);
    assert(g_char(r) is No); assert(g_string(r) is No); assert(g_named(none(), r) is No); assert(g_unnamed(none(), r) is No); assert(g_bits(r) is No);
    assert(g_variant(none(), r) == PR::Ok(SV::Var(s, c), rest));
}
// a name that is not the word w, followed by something that is not part of a name: either it does not start with w, or w goes on
proof fn ident_not(r: Seq<char>, s: Seq<char>, a: Seq<char>, w: Seq<char>)
    requires r == s + a, ident_text(s), s != w, a.len() > 0, !identc(a[0]), starts_with(r, w), w.len() > 0, forall|i: int| 0 <= i < w.len() ==> identc(#[trigger] w[i])
    ensures r.skip(w.len() as int).len() > 0, identc(r.skip(w.len() as int)[0])
{
    char_classes();
    if s.len() < w.len() { assert(r.take(w.len() as int)[s.len() as int] == a[0]); assert(identc(w[s.len() as int])); assert(false); }
    if s.len() == w.len() { assert(s =~= r.take(w.len() as int)); assert(false); }
    assert(r[w.len() as int] == s[w.len() as int]); assert(is_alnum(s[w.len() as int]) || s[w.len() as int] == '_');
}
// printing and parsing: the whole text is read, and gives the same value
proof fn round_trip<T>(g: Cfg<T>, v: Value<T>, st: FormatStyle)
    requires ws_cfg(g), plain(v)
    ensures g_value(none(), r_val(g, v, st)) == PR::Ok(nv(v), Seq::<char>::empty()), exact(v) ==> g_value(none(), r_val(g, v, st)) == PR::Ok(sv(v), Seq::<char>::empty()) /*@ T01 */
{ rt_val(g, v, st, Seq::empty()); assert(r_val(g, v, st) + Seq::empty() =~= r_val(g, v, st)); if exact(v) { same_value(v); } }
// the default configuration is one that can be read back
proof fn default_is_readable<T>() ensures ws_cfg::<T>(Cfg { custom: Seq::empty(), ctx: None, lead: Seq::empty(), step: seq![' ', ' '] }) { ascii_ws(); }
"""


def build(b):
    s = b.src(lib_text.FS)
    u_escapes.build(b)
    lib_value.types(b)
    b.emit(lib_text.STR)
    lib_text.parse_errors(b)
    b.emit(lib_tokens.GHOST)
    b.emit(lib_tokens.CHARS)
    b.emit("pub open spec fn suffix_of(r: Seq<char>, s: Seq<char>) -> bool { r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) }")
    b.emit(lib_text.OUT2)
    b.emit("#[derive(Clone, Copy)]")
    b.emit("pub " + b.src(u_print.TS).find_item("enum", "FormatStyle"))
    b.emit(u_parse.GRAMMAR)
    b.emit(u_print.RENDER)
    b.emit(NORM)
    b.emit(LEAVES)
    b.emit(TREE)
