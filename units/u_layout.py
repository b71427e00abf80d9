"""Lemmas over the printer's contract: layout is the only thing the options change (T08)."""
from units import lib_value, lib_text, lib_tokens, u_escapes, u_parse, u_print
PROPS = ["T08"]

LEMMAS = """
// where a reader of the text is: outside quotes, inside them, just after a backslash inside them
pub enum Q { Out, Dq, DqEsc, Sq, SqEsc }
spec fn qstep(q: Q, c: char) -> Q {
    match q {
        Q::Out => if c == '"' { Q::Dq } else if c == '\\'' { Q::Sq } else { Q::Out },
        Q::Dq => if c == '"' { Q::Out } else if c == '\\\\' { Q::DqEsc } else { Q::Dq },
        Q::DqEsc => Q::Dq,
        Q::Sq => if c == '\\'' { Q::Out } else if c == '\\\\' { Q::SqEsc } else { Q::Sq },
        Q::SqEsc => Q::Sq,
    }
}
spec fn qs(s: Seq<char>, q: Q) -> Q decreases s.len() { if s.len() == 0 { q } else { qstep(qs(s.drop_last(), q), s.last()) } }
// the text without the whitespace outside quotes
spec fn sq(s: Seq<char>, q: Q) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { sq(s.drop_last(), q) + (if qs(s.drop_last(), q) is Out && is_ws(s.last()) { Seq::empty() } else { seq![s.last()] }) } }
spec fn squash(s: Seq<char>) -> Seq<char> { sq(s, Q::Out) }
spec fn closed(s: Seq<char>) -> bool { qs(s, Q::Out) is Out }
proof fn cat_q(a: Seq<char>, b: Seq<char>, q: Q) ensures qs(a + b, q) == qs(b, qs(a, q)), sq(a + b, q) == sq(a, q) + sq(b, qs(a, q)) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(sq(a, q) + Seq::<char>::empty() =~= sq(a, q)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); cat_q(a, b.drop_last(), q); assert((a + b).last() == b.last()); assert(sq(a + b, q) =~= sq(a, q) + sq(b, qs(a, q))); }
}
proof fn cat(a: Seq<char>, b: Seq<char>) requires closed(a) ensures squash(a + b) == squash(a) + squash(b), closed(b) ==> closed(a + b) { cat_q(a, b, Q::Out); }
proof fn one_q(c: char, q: Q) ensures qs(seq![c], q) == qstep(q, c), sq(seq![c], q) == (if q is Out && is_ws(c) { Seq::empty() } else { seq![c] })
{ reveal_with_fuel(sq, 3); reveal_with_fuel(qs, 3); assert(seq![c].last() == c); assert(seq![c].drop_last() =~= Seq::empty()); assert(sq(seq![c].drop_last(), q) =~= Seq::empty()); assert(qs(seq![c].drop_last(), q) == q); assert(sq(seq![c], q) =~= (if q is Out && is_ws(c) { Seq::empty() } else { seq![c] })); }
proof fn two(a: char, b: char) requires a != '"' && a != '\\'' && b != '"' && b != '\\'' ensures closed(seq![a, b]) { assert(seq![a, b] =~= seq![a] + seq![b]); cat_q(seq![a], seq![b], Q::Out); one_q(a, Q::Out); one_q(b, Q::Out); }
// text without quotes
proof fn bare(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '"' && s[i] != '\\'' ensures closed(s) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] != '"' && s.drop_last()[i] != '\\'' by { assert(s[i] != '"' && s[i] != '\\''); } bare(s.drop_last()); assert(s[s.len() - 1] == s.last()); } }
spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
proof fn gone(s: Seq<char>) requires all_ws(s) ensures closed(s), squash(s) == Seq::<char>::empty() decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies is_ws(#[trigger] s.drop_last()[i]) by { assert(is_ws(s[i])); } gone(s.drop_last()); assert(is_ws(s[s.len() - 1])); ascii_ws(); assert(squash(s) =~= Seq::empty()); } }
proof fn escs_q(s: Seq<char>) ensures qs(r_escs(s), Q::Dq) is Dq decreases s.len()
{
    if s.len() > 0 {
        escs_q(s.drop_last()); let c = s.last(); cat_q(r_escs(s.drop_last()), r_esc(c), Q::Dq);
        esc_q(c, Q::Dq);
    }
}
proof fn esc_q(c: char, q: Q) requires q is Dq || q is Sq ensures qs(r_esc(c), q) == q
{ match esc(c) { Some(e) => { assert(seq!['\\\\', e] =~= seq!['\\\\'] + seq![e]); cat_q(seq!['\\\\'], seq![e], q); one_q('\\\\', q); one_q(e, qs(seq!['\\\\'], q)); } None => { unescaped_are_harmless(c); one_q(c, q); } } }
proof fn str_q(s: Seq<char>) ensures closed(r_str(s)) { escs_q(s); cat_q(seq!['"'] + r_escs(s), seq!['"'], Q::Out); cat_q(seq!['"'], r_escs(s), Q::Out); one_q('"', Q::Out); one_q('"', Q::Dq); }
proof fn char_q(c: char) ensures closed(r_char(c)) { esc_q(c, Q::Sq); cat_q(seq!['\\''] + r_esc(c), seq!['\\''], Q::Out); cat_q(seq!['\\''], r_esc(c), Q::Out); one_q('\\'', Q::Out); one_q('\\'', Q::Sq); }
proof fn name_q(s: Seq<char>) ensures closed(r_name(s)), closed(r_vname(s))
{
    char_classes();
    if ident_text(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '"' && s[i] != '\\'' by { assert(i > 0 ==> is_alnum(s[i]) || s[i] == '_'); } bare(s); }
    str_q(s); one_q('v', Q::Out); cat(seq!['v'], r_str(s));
}
proof fn udec_q(n: nat) ensures forall|i: int| 0 <= i < udec(n).len() ==> #[trigger] udec(n)[i] != '"' && udec(n)[i] != '\\'' decreases n
{
    if n >= 10 { udec_q(n / 10); let s = udec(n); assert(s.drop_last() =~= udec(n / 10)); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '"' && s[i] != '\\'' by { if i < s.len() - 1 { assert(udec(n / 10)[i] == s[i]); } else { assert(s[i] == digit(n)); } } }
}
proof fn prim_q(p: SP) requires !(p is U256), !(p is I256) ensures closed(r_prim(p))
{
    reveal_strlit("true"); reveal_strlit("false");
    match p {
        SP::Bool(b) => { assert(b ==> r_prim(p) =~= seq!['t', 'r', 'u', 'e']); assert(!b ==> r_prim(p) =~= seq!['f', 'a', 'l', 's', 'e']); bare(r_prim(p)); }
        SP::Char(c) => { char_q(c); }
        SP::Str(s) => { str_q(s); }
        SP::U128(n) => { udec_q(n as nat); bare(r_prim(p)); }
        SP::I128(n) => { let k = (if n < 0 { -(n as int) } else { n as int }) as nat; udec_q(k); bare(udec(k)); if n < 0 { one_q('-', Q::Out); cat(seq!['-'], udec(k)); } }
        _ => {}
    }
}
proof fn bits_q(b: Seq<bool>) ensures closed(r_bits(b)) { assert forall|i: int| 0 <= i < r_bits(b).len() implies #[trigger] r_bits(b)[i] != '"' && r_bits(b)[i] != '\\'' by { } bare(r_bits(b)); }
spec fn ws_cfg<T>(g: Cfg<T>) -> bool { g.custom.len() == 0 && g.ctx is None && all_ws(g.lead) && all_ws(g.step) }
proof fn rep_ws(s: Seq<char>, n: nat) requires all_ws(s) ensures all_ws(rep(s, n)) decreases n { if n > 0 { rep_ws(s, (n - 1) as nat); } }
proof fn layout_ws<T>(g: Cfg<T>, st: FormatStyle) requires ws_cfg(g) ensures all_ws(l_sep(g, st)), all_ws(l_newline(g, st)), all_ws(l_space(st))
{ ascii_ws(); match st { FormatStyle::Pretty(n) => { rep_ws(g.step, n as nat); } _ => {} } }
// two texts with the same contents and nothing open
spec fn alike(a: Seq<char>, b: Seq<char>) -> bool { closed(a) && closed(b) && squash(a) == squash(b) }
proof fn alike_cat(a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>) requires alike(a, b), alike(x, y) ensures alike(a + x, b + y) { cat(a, x); cat(b, y); }
proof fn alike_ws(a: Seq<char>, b: Seq<char>) requires all_ws(a), all_ws(b) ensures alike(a, b) { gone(a); gone(b); }
proof fn alike_one(c: char) requires c != '"', c != '\\'' ensures alike(seq![c], seq![c]) { one_q(c, Q::Out); }
proof fn item_of<T>(v: Vec<Value<T>>, i: int) requires plain_comp(Composite::Unnamed(v)), 0 <= i < v@.len() ensures plain(v@[i])
{ let c = Composite::Unnamed(v); reveal_with_fuel(plain_comp, 2); match c { Composite::Unnamed(w) => { assert(w == v); let x = w@[i]; assert(plain(x)); } _ => {} } }
proof fn field_of<T>(v: Vec<(String, Value<T>)>, i: int) requires plain_comp(Composite::Named(v)), 0 <= i < v@.len() ensures plain(v@[i].1)
{ let c = Composite::Named(v); reveal_with_fuel(plain_comp, 2); match c { Composite::Named(w) => { assert(w == v); let x = w@[i]; assert(plain(x.1)); } _ => {} } }

// the same value printed in two styles, with any two whitespace configurations
proof fn same_val<T>(g: Cfg<T>, h: Cfg<T>, v: Value<T>, s: FormatStyle, t: FormatStyle)
    requires ws_cfg(g), ws_cfg(h), plain(v) ensures alike(r_val(g, v, s), r_val(h, v, t)) /*@ T08 */ decreases v, 4int, 0int
{ same_def(g, h, v.value, s, t); assert(r_val(g, v, s) =~= r_def(g, v.value, s)); assert(r_val(h, v, t) =~= r_def(h, v.value, t)); }
proof fn same_def<T>(g: Cfg<T>, h: Cfg<T>, v: ValueDef<T>, s: FormatStyle, t: FormatStyle)
    requires ws_cfg(g), ws_cfg(h), plain_def(v) ensures alike(r_def(g, v, s), r_def(h, v, t)) decreases v, 3int, 0int
{
    match v {
        ValueDef::Composite(c) => { same_comp(g, h, c, s, t); }
        ValueDef::Variant(x) => {
            same_comp(g, h, x.values, s, t); name_q(x.name@); layout_ws(g, s); layout_ws(h, t); alike_ws(l_space(s), l_space(t));
            alike_cat(r_vname(x.name@), r_vname(x.name@), l_space(s), l_space(t));
            alike_cat(r_vname(x.name@) + l_space(s), r_vname(x.name@) + l_space(t), r_comp(g, x.values, s), r_comp(h, x.values, t));
        }
        ValueDef::BitSequence(b) => { bits_q(b.bits()); }
        ValueDef::Primitive(p) => { prim_q(sp(p)); }
    }
}
proof fn alike5(o: char, c: char, a: Seq<char>, b: Seq<char>, x: Seq<char>, a2: Seq<char>, b2: Seq<char>, x2: Seq<char>)
    requires alike(a, a2), alike(b, b2), alike(x, x2), o != '"', o != '\\'', c != '"', c != '\\''
    ensures alike(seq![o] + a + x + b + seq![c], seq![o] + a2 + x2 + b2 + seq![c])
{
    alike_one(o); alike_one(c); alike_cat(seq![o], seq![o], a, a2); alike_cat(seq![o] + a, seq![o] + a2, x, x2); alike_cat(seq![o] + a + x, seq![o] + a2 + x2, b, b2);
    alike_cat(seq![o] + a + x + b, seq![o] + a2 + x2 + b2, seq![c], seq![c]);
}
proof fn same_comp<T>(g: Cfg<T>, h: Cfg<T>, c: Composite<T>, s: FormatStyle, t: FormatStyle)
    requires ws_cfg(g), ws_cfg(h), plain_comp(c) ensures alike(r_comp(g, c, s), r_comp(h, c, t)) decreases c, 2int, 0int
{
    let ds = deeper(s); let dt = deeper(t);
    layout_ws(g, s); layout_ws(h, t); layout_ws(g, ds); layout_ws(h, dt);
    match c {
        Composite::Named(v) => {
            assert(decreases_to!(c => c->Named_0)); assert(c->Named_0 == v);
            if v@.len() == 0 { two('{', '}'); } else {
                same_fields(g, h, v, v@.len(), ds, dt); alike_ws(l_sep(g, ds), l_sep(h, dt)); alike_ws(l_sep(g, s), l_sep(h, t));
                alike5('{', '}', l_sep(g, ds), l_sep(g, s), r_fields(g, v, v@.len(), ds), l_sep(h, dt), l_sep(h, t), r_fields(h, v, v@.len(), dt));
            }
        }
        Composite::Unnamed(v) => {
            assert(decreases_to!(c => c->Unnamed_0)); assert(c->Unnamed_0 == v);
            if v@.len() == 0 { two('(', ')'); } else {
                same_items(g, h, v, v@.len(), ds, dt); alike_ws(l_newline(g, ds), l_newline(h, dt)); alike_ws(l_newline(g, s), l_newline(h, t));
                alike5('(', ')', l_newline(g, ds), l_newline(g, s), r_items(g, v, v@.len(), ds), l_newline(h, dt), l_newline(h, t), r_items(h, v, v@.len(), dt));
            }
        }
    }
}
proof fn same_comma<T>(g: Cfg<T>, h: Cfg<T>, n: nat, s: FormatStyle, t: FormatStyle) requires ws_cfg(g), ws_cfg(h) ensures alike(r_comma(g, n, s), r_comma(h, n, t))
{ layout_ws(g, s); layout_ws(h, t); if n != 1 { alike_ws(l_sep(g, s), l_sep(h, t)); alike_one(','); alike_cat(seq![','], seq![','], l_sep(g, s), l_sep(h, t)); } else { alike_ws(Seq::empty(), Seq::empty()); } }
proof fn same_items<T>(g: Cfg<T>, h: Cfg<T>, v: Vec<Value<T>>, n: nat, s: FormatStyle, t: FormatStyle)
    requires ws_cfg(g), ws_cfg(h), plain_comp(Composite::Unnamed(v)), n <= v@.len() ensures alike(r_items(g, v, n, s), r_items(h, v, n, t)) decreases v, n, 0int
{
    if n > 0 {
        item_of(v, n - 1); assert(decreases_to!(v => v@[n - 1]));
        same_items(g, h, v, (n - 1) as nat, s, t); same_comma(g, h, n, s, t); same_val(g, h, v@[n - 1], s, t);
        alike_cat(r_items(g, v, (n - 1) as nat, s), r_items(h, v, (n - 1) as nat, t), r_comma(g, n, s), r_comma(h, n, t));
        alike_cat(r_items(g, v, (n - 1) as nat, s) + r_comma(g, n, s), r_items(h, v, (n - 1) as nat, t) + r_comma(h, n, t), r_val(g, v@[n - 1], s), r_val(h, v@[n - 1], t));
    } else { alike_ws(Seq::empty(), Seq::empty()); }
}
proof fn same_fields<T>(g: Cfg<T>, h: Cfg<T>, v: Vec<(String, Value<T>)>, n: nat, s: FormatStyle, t: FormatStyle)
    requires ws_cfg(g), ws_cfg(h), plain_comp(Composite::Named(v)), n <= v@.len() ensures alike(r_fields(g, v, n, s), r_fields(h, v, n, t)) decreases v, n, 0int
{
    if n > 0 {
        let k = v@[n - 1].0@;
        field_of(v, n - 1); assert(decreases_to!(v => v@[n - 1]));
        same_fields(g, h, v, (n - 1) as nat, s, t); same_comma(g, h, n, s, t); same_val(g, h, v@[n - 1].1, s, t); name_q(k); alike_one(':');
        layout_ws(g, s); layout_ws(h, t); alike_ws(l_space(s), l_space(t));
        let a = r_fields(g, v, (n - 1) as nat, s); let b = r_fields(h, v, (n - 1) as nat, t);
        alike_cat(a, b, r_comma(g, n, s), r_comma(h, n, t));
        let a = a + r_comma(g, n, s); let b = b + r_comma(h, n, t);
        alike_cat(a, b, r_name(k), r_name(k));
        let a = a + r_name(k); let b = b + r_name(k);
        alike_cat(a, b, seq![':'], seq![':']);
        let a = a + seq![':']; let b = b + seq![':'];
        alike_cat(a, b, l_space(s), l_space(t));
        let a = a + l_space(s); let b = b + l_space(t);
        alike_cat(a, b, r_val(g, v@[n - 1].1, s), r_val(h, v@[n - 1].1, t));
    } else { alike_ws(Seq::empty(), Seq::empty()); }
}
"""


def build(b):
    u_escapes.build(b)
    lib_value.types(b)
    b.emit(lib_text.STR)
    b.emit(lib_tokens.GHOST)
    b.emit(lib_tokens.CHARS)
    b.emit(lib_text.OUT2)
    b.emit("#[derive(Clone, Copy)]")
    b.emit("pub " + b.src(u_print.TS).find_item("enum", "FormatStyle"))
    b.emit(u_print.RENDER)
    b.emit(LEMMAS)
