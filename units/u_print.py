"""string_impls/to_string.rs: the text written for a value (T01, T03, T08)."""
from units import lib_value, lib_text, lib_tokens, u_escapes
import re
from vf.rust import LostAnchor, find_all
PROPS = ["T01", "T03", "T08"]
_BOTH = ["T01", "T08"]
FN_PROPS = dict(fmt_string=["T01", "T03", "T08"], fmt_char=["T01", "T03", "T08"], is_ident=_BOTH, fmt_bitsequence=_BOTH, fmt_primitive=_BOTH, fmt_composite=_BOTH, fmt_variant=_BOTH, fmt_valuedef=_BOTH, fmt_value=_BOTH,
                write_newline=_BOTH, write_str=_BOTH, indent_step=_BOTH, unindent_step=_BOTH, space=_BOTH, newline=_BOTH, item_separator=_BOTH, should_print_context=["T08"], print_context=["T08"], print_custom_format=["T08"],
                format_context=["T08"], add_custom_formatter=["T08"], leading_indent=["T08"], indent_by=["T08"], compact=_BOTH, pretty=_BOTH, as_formatter=_BOTH, write=_BOTH, default_builder=_BOTH)
TS = "src/string_impls/to_string.rs"

RENDER = """
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { rep(s, (n - 1) as nat) + s } }
// decimal digits
pub open spec fn digit(n: nat) -> char { (48 + n % 10) as u8 as char }
pub open spec fn udec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { udec(n / 10).push(digit(n)) } }
pub open spec fn idec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + udec((-n) as nat) } else { udec(n as nat) } }
// the configuration of a printer
pub struct Cfg<T> { pub custom: Seq<CustomFormatter<T>>, pub ctx: Option<ContextPrinter<T>>, pub lead: Seq<char>, pub step: Seq<char> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct CustomFormatter<T> { t: T }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct ContextPrinter<T> { t: T }
// custom formatters and context printers are functions of what they are given; one that declines writes nothing
impl<T> CustomFormatter<T> {
    pub uninterp spec fn out(&self, v: Value<T>) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn call(&self, v: &Value<T>, w: &mut Out) -> (r: Option<Result<(), FmtError>>)
        ensures r is Some == self.out(*v) is Some, r is None ==> *final(w) == *old(w), r is Some && r->0 is Ok ==> final(w).text() == old(w).text() + self.out(*v)->0 && final(w).failed() == old(w).failed(),
            r is Some && r->0 is Err ==> final(w).failed()
    { unimplemented!() }
}
impl<T> ContextPrinter<T> {
    pub uninterp spec fn out(&self, c: T) -> Seq<char>;
    #[verifier::external_body]
    pub fn call(&self, c: &T, w: &mut Out) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(w).text() == old(w).text() + self.out(*c) && final(w).failed() == old(w).failed(), r is Err ==> final(w).failed()
    { unimplemented!() }
}
pub open spec fn first_fmt<T>(fs: Seq<CustomFormatter<T>>, v: Value<T>) -> Option<Seq<char>> decreases fs.len() { if fs.len() == 0 { None } else { match fs[0].out(v) { None => first_fmt(fs.skip(1), v), x => x } } }
// layout
pub open spec fn deeper(st: FormatStyle) -> FormatStyle { match st { FormatStyle::Pretty(n) => FormatStyle::Pretty((n + 1) as usize), x => x } }
pub open spec fn l_space(st: FormatStyle) -> Seq<char> { match st { FormatStyle::Compact => Seq::empty(), _ => seq![' '] } }
pub open spec fn l_nl(lead: Seq<char>, step: Seq<char>, n: nat) -> Seq<char> { seq!['\\n'] + lead + rep(step, n) }
pub open spec fn l_newline<T>(g: Cfg<T>, st: FormatStyle) -> Seq<char> { match st { FormatStyle::Pretty(n) => l_nl(g.lead, g.step, n as nat), _ => Seq::empty() } }
pub open spec fn l_sep<T>(g: Cfg<T>, st: FormatStyle) -> Seq<char> { match st { FormatStyle::Compact => Seq::empty(), FormatStyle::Normal => seq![' '], FormatStyle::Pretty(n) => l_nl(g.lead, g.step, n as nat) } }
// texts
pub open spec fn r_esc(c: char) -> Seq<char> { match esc(c) { Some(e) => seq!['\\\\', e], None => seq![c] } }
pub open spec fn r_escs(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { r_escs(s.drop_last()) + r_esc(s.last()) } }
pub open spec fn r_str(s: Seq<char>) -> Seq<char> { seq!['"'] + r_escs(s) + seq!['"'] }
pub open spec fn r_char(c: char) -> Seq<char> { seq!['\\''] + r_esc(c) + seq!['\\''] }
pub open spec fn r_bitsin(b: Seq<bool>) -> Seq<char> { Seq::new(b.len(), |i: int| if b[i] { '1' } else { '0' }) }
pub open spec fn r_bits(b: Seq<bool>) -> Seq<char> { seq!['<'] + r_bitsin(b) + seq!['>'] }
pub open spec fn ident_text(s: Seq<char>) -> bool { s.len() > 0 && is_alpha(s[0]) && forall|i: int| 1 <= i < s.len() ==> is_alnum(#[trigger] s[i]) || s[i] == '_' }
pub open spec fn r_name(s: Seq<char>) -> Seq<char> { if ident_text(s) { s } else { r_str(s) } }
pub open spec fn r_vname(s: Seq<char>) -> Seq<char> { if ident_text(s) && s != "true"@ && s != "false"@ { s } else { seq!['v'] + r_str(s) } }
pub open spec fn r_prim(p: SP) -> Seq<char> {
    match p { SP::Bool(b) => if b { "true"@ } else { "false"@ }, SP::Char(c) => r_char(c), SP::Str(s) => r_str(s), SP::U128(n) => udec(n as nat), SP::I128(n) => idec(n as int), _ => Seq::empty() }
}
pub open spec fn r_val<T>(g: Cfg<T>, v: Value<T>, st: FormatStyle) -> Seq<char> decreases v {
    (match g.ctx { Some(c) => seq!['<'] + c.out(v.context) + seq!['>', ' '], None => Seq::empty() }) + (match first_fmt(g.custom, v) { Some(t) => t, None => r_def(g, v.value, st) })
}
pub open spec fn r_def<T>(g: Cfg<T>, v: ValueDef<T>, st: FormatStyle) -> Seq<char> decreases v {
    match v { ValueDef::Composite(c) => r_comp(g, c, st), ValueDef::Variant(x) => r_vname(x.name@) + l_space(st) + r_comp(g, x.values, st), ValueDef::BitSequence(b) => r_bits(b.bits()), ValueDef::Primitive(p) => r_prim(sp(p)) }
}
pub open spec fn r_comp<T>(g: Cfg<T>, c: Composite<T>, st: FormatStyle) -> Seq<char> decreases c {
    match c {
        Composite::Named(v) => if v@.len() == 0 { seq!['{', '}'] } else { seq!['{'] + l_sep(g, deeper(st)) + r_fields(g, v, v@.len(), deeper(st)) + l_sep(g, st) + seq!['}'] },
        Composite::Unnamed(v) => if v@.len() == 0 { seq!['(', ')'] } else { seq!['('] + l_newline(g, deeper(st)) + r_items(g, v, v@.len(), deeper(st)) + l_newline(g, st) + seq![')'] },
    }
}
pub open spec fn r_comma<T>(g: Cfg<T>, n: nat, st: FormatStyle) -> Seq<char> { if n == 1 { Seq::empty() } else { seq![','] + l_sep(g, st) } }
// the first n of them
pub open spec fn r_fields<T>(g: Cfg<T>, v: Vec<(String, Value<T>)>, n: nat, st: FormatStyle) -> Seq<char> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() } else { r_fields(g, v, (n - 1) as nat, st) + r_comma(g, n, st) + r_name(v@[n - 1].0@) + seq![':'] + l_space(st) + r_val(g, v@[n - 1].1, st) }
}
pub open spec fn r_items<T>(g: Cfg<T>, v: Vec<Value<T>>, n: nat, st: FormatStyle) -> Seq<char> decreases v, n {
    if n == 0 || n > v@.len() { Seq::empty() } else { r_items(g, v, (n - 1) as nat, st) + r_comma(g, n, st) + r_val(g, v@[n - 1], st) }
}
// no 256-bit number in it
pub open spec fn plain<T>(v: Value<T>) -> bool decreases v { plain_def(v.value) }
pub open spec fn plain_def<T>(v: ValueDef<T>) -> bool decreases v { match v { ValueDef::Composite(c) => plain_comp(c), ValueDef::Variant(x) => plain_comp(x.values), ValueDef::BitSequence(b) => true, ValueDef::Primitive(p) => !(p is U256) && !(p is I256) } }
pub open spec fn plain_comp<T>(c: Composite<T>) -> bool decreases c {
    match c { Composite::Named(v) => forall|i: int| 0 <= i < v@.len() ==> plain((#[trigger] v@[i]).1), Composite::Unnamed(v) => forall|i: int| 0 <= i < v@.len() ==> plain(#[trigger] v@[i]) }
}
// nested at most h deep
pub open spec fn depth<T>(v: Value<T>, h: int) -> bool decreases v { depth_def(v.value, h) }
pub open spec fn depth_def<T>(v: ValueDef<T>, h: int) -> bool decreases v { match v { ValueDef::Composite(c) => depth_comp(c, h), ValueDef::Variant(x) => depth_comp(x.values, h), _ => true } }
pub open spec fn depth_comp<T>(c: Composite<T>, h: int) -> bool decreases c {
    match c { Composite::Named(v) => v@.len() == 0 || h > 0 && forall|i: int| 0 <= i < v@.len() ==> depth((#[trigger] v@[i]).1, h - 1), Composite::Unnamed(v) => v@.len() == 0 || h > 0 && forall|i: int| 0 <= i < v@.len() ==> depth(#[trigger] v@[i], h - 1) }
}
pub open spec fn room(st: FormatStyle) -> int { match st { FormatStyle::Pretty(n) => usize::MAX - n, _ => usize::MAX as int } }
"""


def build(b):
    u_escapes.build(b)
    lib_value.types(b)
    b.emit(lib_text.STR)
    b.emit(lib_tokens.GHOST)
    b.emit(lib_tokens.CHARS)
    b.emit(lib_text.OUT2)
    s = b.src(TS)
    b.emit("#[derive(Clone, Copy)]")
    b.emit("pub " + s.find_item("enum", "FormatStyle"))
    b.emit(RENDER)
    b.emit("""
#[verifier::external_body]
pub struct Chars { v: u8 }
impl Chars {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>) ensures old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1), old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Chars) ensures r.rest() == s@ { unimplemented!() }
#[verifier::external_body]
pub fn bits_of(b: &BitSequence) -> (r: Vec<bool>) ensures r@ == b.bits() { unimplemented!() }
#[verifier::external_body]
pub fn char_to_string(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
// Display of integers
pub trait Dec { spec fn dtext(&self) -> Seq<char>; fn to_dec(&self) -> (r: String) ensures r@ == self.dtext(); }
impl Dec for u128 { open spec fn dtext(&self) -> Seq<char> { udec(*self as nat) } #[verifier::external_body] fn to_dec(&self) -> (r: String) { unimplemented!() } }
impl Dec for i128 { open spec fn dtext(&self) -> Seq<char> { idec(*self as int) } #[verifier::external_body] fn to_dec(&self) -> (r: String) { unimplemented!() } }
""")
    # the printer itself: W is the buffer, the boxed closures are the opaque functions above
    st = s.find_item("struct", "Formatter")
    from vf.rust import rewrite
    for p, r in (("<'a, T, W>", "<'a, T>"), ("writer: W", "writer: Out"), ("CustomFormatter<T, W>", "CustomFormatter<T>"), ("ContextPrinter<T, W>", "ContextPrinter<T>")):
        st = rewrite(st, p, r)
    b.emit("pub " + re.sub(r"(\n\s+)(\w+:)", r"\1pub \2", st))
    b.emit("""impl<'a, T> Formatter<'a, T> {
    pub open spec fn cfg(&self) -> Cfg<T> { Cfg { custom: self.custom_formatters@, ctx: *self.print_context, lead: self.leading_indent@, step: self.indent_by@ } }
}
// what one step of writing does: the text t is appended, or the writer has failed (or, with may: it refused to write)
pub open spec fn wrote<'a, T>(r: Result<(), FmtError>, a: Formatter<'a, T>, b: Formatter<'a, T>, t: Seq<char>, may: bool) -> bool {
    &&& b.cfg() == a.cfg()
    &&& r is Ok ==> b.writer.text() =~= a.writer.text() + t && b.style == a.style && b.writer.failed() == a.writer.failed()
    &&& r is Err ==> b.writer.failed() || may
}
""")
    FMT = "Formatter<T>"

    def fn(name, within=""):
        f = s.find_fn(name, within=within)
        for p, r in (("<T, W: core::fmt::Write>", "<T>"), ("Formatter<T, W>", "Formatter<T>"), ("&mut impl core::fmt::Write", "&mut Out"), ("core::fmt::Result", "Result<(), FmtError>"), ("W: core::fmt::Write", "")):
            f.sub_sig(p, r, minimum=0)
        if "F: Fn(" in f.sig:
            f.sub_sig("<F: Fn($a) -> $b:rest>(", "(", minimum=0).sub_sig("F: Fn(&T, &mut W) -> Result<(), FmtError> + 'static", "", minimum=0).sub_sig("F: Fn(&Value<T>, &mut W) -> Option<Result<(), FmtError>> + 'static", "", minimum=0)
            f.sig = re.sub(r"<\s*,?\s*>\s*\(", "(", f.sig)
        f.result()
        f.sub_opt("$n:ident.as_bytes", "$n.as_bytes")
        # String where str is wanted
        for e in ("v.name",):
            f.sub_opt(f"&{e}", f"{e}.as_str()")
            f.sub_opt(f"{e} != $s:tok", f"{e}.as_str() != $s")
        f.sub_opt("write!($f:ident, \"{n}\")", "$f.write_str(n.to_dec().as_str())")
        f.sub_opt("string_helpers::to_escape_code", "to_escape_code")
        f.sub_opt("$f:ident.$m:ident($a).unwrap_or_else(|| $b)", "match $f.$m($a) { Some(__x) => __x, None => $b }")
        return f

    def W(t, may="false"):
        return f"ensures wrote(r, *old(f), *final(f), {t}, {may})"

    f = fn("write_newline")
    f.contract("ensures r is Ok ==> final(writer).text() =~= old(writer).text() + l_nl(leading_indent@, indent_str@, indent as nat) && final(writer).failed() == old(writer).failed(), r is Err ==> final(writer).failed()")
    f.sub("for _ in 0..$n", "for __i in 0..$n")
    f.loop(0, "invariant writer.text() =~= old(writer).text() + (seq!['\\n'] + leading_indent@ + rep(indent_str@, __i as nat)), writer.failed() == old(writer).failed()", 1)
    b.fn(f)
    F = "Formatter<'a, T, W>"
    b.emit("impl<'a, T> Formatter<'a, T> {")
    if "fn write_char" in "".join(x for x in [s.text[s.toks[o].a:s.toks[c].b] for h, o, c in s.impls() if "Write for Formatter" in h]):
        raise LostAnchor("Formatter has its own write_char")
    S = "ensures wrote(r, *old(self), *final(self), {}, {})"
    b.fn(fn("write_str", "Write for Formatter").contract(S.format("s@", "false")), "Formatter::write_str")
    b.emit("// core::fmt::Write::write_char, as the trait provides it\n    fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) " + S.format("seq![c]", "false") + " { self.write_str(char_to_string(c).as_str()) }")
    same = "final(self).cfg() == old(self).cfg(), final(self).writer == old(self).writer"
    b.fn(fn("indent_step", F).contract(f"requires room(old(self).style) > 0 ensures {same}, final(self).style == deeper(old(self).style)"), "Formatter::indent_step")
    b.fn(fn("unindent_step", F).contract(f"ensures {same}, forall|s: FormatStyle| room(s) > 0 && old(self).style == #[trigger] deeper(s) ==> final(self).style == s"), "Formatter::unindent_step")
    for n, t in (("space", "l_space(old(self).style)"), ("newline", "l_newline(old(self).cfg(), old(self).style)"), ("item_separator", "l_sep(old(self).cfg(), old(self).style)")):
        b.fn(fn(n, F).contract(S.format(t, "false")), "Formatter::" + n)
    b.fn(fn("should_print_context", F).contract("ensures r == self.cfg().ctx is Some"), "Formatter::should_print_context")
    f = fn("print_context", F).contract("ensures wrote(r, *old(self), *final(self), match old(self).cfg().ctx { Some(c) => c.out(*ctx), None => Seq::empty() }, false)")
    f.sub_opt("f(ctx, &mut self.writer)", "f.call(ctx, &mut self.writer)")
    b.fn(f, "Formatter::print_context")
    f = fn("print_custom_format", F).sub_sig("Option<Result<(), FmtError>>", "Option<Result<(), FmtError>>")
    f.contract("ensures r is Some == first_fmt(old(self).cfg().custom, *value) is Some, r is None ==> *final(self) == *old(self), r is Some ==> wrote(r->0, *old(self), *final(self), first_fmt(old(self).cfg().custom, *value)->0, false)")
    f.sub("for $p:ident in self.custom_formatters", "for $p in it: self.custom_formatters.iter()")
    f.sub("formatter($a)", "formatter.call($a)")
    f.sub("if let Some($r:ident) = formatter.call($c)", "proof { let k = it.index(); let cs = self.custom_formatters@; assert(*formatter == cs[k]); assert(cs.skip(k)[0] == cs[k]); assert(cs.skip(k).skip(1) =~= cs.skip(k + 1)); } if let Some($r) = formatter.call($c)")
    f.loop(0, """invariant *self == *old(self), it.seq().len() == self.custom_formatters@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.custom_formatters@[i],
        first_fmt(self.custom_formatters@, *value) == first_fmt(self.custom_formatters@.skip(it.index()), *value)""", 1)
    f.prelude("proof { let cs = self.custom_formatters@; assert(cs.skip(0) =~= cs); assert(first_fmt(cs.skip(cs.len() as int), *value) is None); }")
    b.fn(f, "Formatter::print_custom_format")
    b.emit("}")
    # for x in s.chars() and an explicit .next(): the same stream of chars
    def chars(f):
        f.sub_opt("let mut $c:ident = $s:ident.chars();", "let mut $c = chars_of($s);")
        f.sub_opt("for $x:ident in $s:ident.chars() { $b }", "let mut __chars = chars_of($s); loop { match __chars.next() { None => { break; } Some($x) => { $b } } }")
        f.sub_opt("for $x:ident in chars { $b }", "loop { match chars.next() { None => { break; } Some($x) => { $b } } }")
        return f

    f = chars(fn("is_ident")).contract("ensures r == ident_text(s@)")
    f.loop(0, """invariant s@.len() > 0, is_alpha(s@[0]), chars.rest().len() < s@.len(), chars.rest() =~= s@.skip(s@.len() - chars.rest().len()), forall|i: int| 1 <= i < s@.len() - chars.rest().len() ==> is_alnum(#[trigger] s@[i]) || s@[i] == '_'
        ensures chars.rest().len() == 0 decreases chars.rest().len()""", 1)
    b.fn(f)
    b.emit("proof fn escs_push(s: Seq<char>, n: int) requires 0 <= n < s.len() ensures r_escs(s.take(n + 1)) == r_escs(s.take(n)) + r_esc(s[n]) { assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); }")
    f = chars(fn("fmt_string")).contract(W("r_str(s@)"))
    f.loop(0, """invariant f.cfg() == old(f).cfg(), f.style == old(f).style, f.writer.failed() == old(f).writer.failed(), __chars.rest().len() <= s@.len(), __chars.rest() =~= s@.skip(s@.len() - __chars.rest().len()),
            f.writer.text() =~= old(f).writer.text() + seq!['"'] + r_escs(s@.take(s@.len() - __chars.rest().len()))
        ensures __chars.rest().len() == 0 decreases __chars.rest().len()""", 1)
    f.sub("match __chars.next() {", "let ghost __k = s@.len() - __chars.rest().len(); proof { if __k < s@.len() { escs_push(s@, __k); } } match __chars.next() {")
    f.prelude("proof { assert(s@.take(0) =~= Seq::empty()); assert(s@.take(s@.len() as int) =~= s@); }")
    b.fn(f)
    b.fn(fn("fmt_char").contract(W("r_char(c)")))
    f = fn("fmt_bitsequence").contract(W("r_bits(b.bits())"))
    f.sub("for $x:ident in b.iter()", "for $x in it: bits_of(b).into_iter()")
    f.loop(0, """invariant f.cfg() == old(f).cfg(), f.style == old(f).style, f.writer.failed() == old(f).writer.failed(), it.seq() == b.bits(),
            f.writer.text() =~= old(f).writer.text() + seq!['<'] + r_bitsin(b.bits().take(it.index() as int))""", 1)
    f.prelude("proof { assert(b.bits().take(0) =~= Seq::empty()); assert(b.bits().take(b.bits().len() as int) =~= b.bits()); }")
    b.fn(f)
    f = fn("fmt_primitive").contract(W("r_prim(sp(*p))", "*p is U256 || *p is I256"))
    f.sub_opt("fmt_string(s, f)", "fmt_string(s.as_str(), f)").sub_opt("core::fmt::Error", "FmtError {}")
    f.prelude('proof { reveal_strlit("true"); reveal_strlit("false"); }')
    b.fn(f)

    # --- values
    f = fn("fmt_composite").contract("requires old(f).style is Pretty ==> depth_comp(*v, room(old(f).style)) " + W("r_comp(old(f).cfg(), *v, old(f).style)", "!plain_comp(*v)") + "\n    decreases *v, 1int")
    f.sub("for ($i:ident, ($n:ident, $x:ident)) in vals.iter().enumerate() {", "let mut __i: usize = 0; while __i < vals.len() { let $i = __i; let $n = &vals[__i].0; let $x = &vals[__i].1; __i += 1; LEMMA_F")
    f.sub("for ($i:ident, $x:ident) in vals.iter().enumerate() {", "let mut __i: usize = 0; while __i < vals.len() { let $i = __i; let $x = &vals[__i]; __i += 1; LEMMA_I")
    f.sub_opt("(name)", "(name.as_str())").sub_opt("(name, f)", "(name.as_str(), f)")
    inv = """invariant f.cfg() == old(f).cfg(), f.style == deeper(old(f).style), f.writer.failed() == old(f).writer.failed(), room(old(f).style) > 0, __i <= vals@.len(), *v == Composite::{V}(*vals), old(f).style is Pretty ==> depth_comp(*v, room(old(f).style)),
            f.writer.text() =~= old(f).writer.text() + seq!['{O}'] + {L}(f.cfg(), deeper(old(f).style)) + {R}(f.cfg(), *vals, __i as nat, deeper(old(f).style))
        decreases vals.len() - __i"""
    f.loop(0, inv.format(V="Named", O="{", L="l_sep", R="r_fields"), 2)
    f.loop(1, inv.format(V="Unnamed", O="(", L="l_newline", R="r_items"), 2)
    dec = "proof {{ reveal_strlit(\",\"); assert(\",\"@ =~= seq![',']); assert(decreases_to!(*v => v->{V}_0)); assert(v->{V}_0 == *vals); assert(decreases_to!(*vals => vals@[__i - 1])); }} let ghost __t0 = f.writer.text();"
    f.sub("LEMMA_F", dec.format(V="Named")).sub("LEMMA_I", dec.format(V="Unnamed"))
    b.emit("""
proof fn cat3(x: Seq<char>, p: Seq<char>, c: Seq<char>, t: Seq<char>) ensures x + p + c + t == x + (p + c + t) { assert(x + p + c + t =~= x + (p + c + t)); }
proof fn cat6(x: Seq<char>, p: Seq<char>, c: Seq<char>, n: Seq<char>, k: Seq<char>, s: Seq<char>, t: Seq<char>) ensures x + p + c + n + k + s + t == x + (p + c + n + k + s + t) { assert(x + p + c + n + k + s + t =~= x + (p + c + n + k + s + t)); }
proof fn cat5(o: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) ensures o + a + b + c + d + e == o + (a + b + c + d + e) { assert(o + a + b + c + d + e =~= o + (a + b + c + d + e)); }
proof fn comma_parts<T>(g: Cfg<T>, n: nat, st: FormatStyle, t: Seq<char>) ensures n == 1 ==> t + r_comma(g, n, st) == t, n != 1 ==> t + r_comma(g, n, st) == t + seq![','] + l_sep(g, st)
{ if n == 1 { assert(t + r_comma(g, n, st) =~= t); } else { assert(t + r_comma(g, n, st) =~= t + seq![','] + l_sep(g, st)); } }
""")
    end = """proof {{
        let g = f.cfg(); let st = f.style; let x = old(f).writer.text() + seq!['{O}'] + {L}(g, st); let p = {R}(g, *vals, (__i - 1) as nat, st); let c = r_comma(g, __i as nat, st);
        comma_parts(g, __i as nat, st, __t0);
        {T}
    }} }} proof {{ let g = f.cfg(); let st = f.style; cat5(old(f).writer.text(), seq!['{O}'], {L}(g, st), {R}(g, *vals, vals@.len(), st), {L}(g, old(f).style), seq!['{C}']); }}"""
    f.sub("fmt_value(val, f)?; } f.unindent_step(); f.item_separator()", "fmt_value(val, f)?; " + end.format(O="{", C="}", L="l_sep", R="r_fields", T="""let n = r_name(vals@[__i - 1].0@); let sp = l_space(st); let t = r_val(g, vals@[__i - 1].1, st);
        cat6(x, p, c, n, seq![':'], sp, t);""") + " f.unindent_step(); f.item_separator()", 1)
    f.sub("fmt_value(val, f)?; } f.unindent_step(); f.newline()", "fmt_value(val, f)?; " + end.format(O="(", C=")", L="l_newline", R="r_items", T="""let t = r_val(g, vals@[__i - 1], st);
        cat3(x, p, c, t);""") + " f.unindent_step(); f.newline()", 1)
    f.prelude("""proof { reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("{}"); reveal_strlit("()"); reveal_strlit(","); assert(","@ =~= seq![',']); assert("{"@ =~= seq!['{']); assert("}"@ =~= seq!['}']); assert("{}"@ =~= seq!['{', '}']); assert("()"@ =~= seq!['(', ')']); assert(forall|s: FormatStyle| room(s) > 0 ==> room(#[trigger] deeper(s)) == room(s) - 1 || !(s is Pretty)); }""")
    b.fn(f)
    f = fn("fmt_variant").contract("requires old(f).style is Pretty ==> depth_comp(v.values, room(old(f).style)) " + W("r_vname(v.name@) + l_space(old(f).style) + r_comp(old(f).cfg(), v.values, old(f).style)", "!plain_comp(v.values)") + "\n    decreases *v, 2int")
    f.prelude('proof { reveal_strlit("true"); reveal_strlit("false"); }')
    b.fn(f)
    f = fn("fmt_valuedef").contract("requires old(f).style is Pretty ==> depth_def(*v, room(old(f).style)) " + W("r_def(old(f).cfg(), *v, old(f).style)", "!plain_def(*v)") + "\n    decreases *v, 3int")
    b.fn(f)
    f = fn("fmt_value").contract("requires old(f).style is Pretty ==> depth(*v, room(old(f).style)) " + W("r_val(old(f).cfg(), *v, old(f).style)", "!plain(*v)") + "\n    decreases *v, 4int")
    f.prelude('proof { reveal_strlit("> "); }')
    b.fn(f)

    # --- configuration
    st = s.find_item("struct", "ToWriterBuilder")
    for p, r in (("<T, W>", "<T>"), ("CustomFormatter<T, W>", "CustomFormatter<T>"), ("ContextPrinter<T, W>", "ContextPrinter<T>")):
        st = rewrite(st, p, r, minimum=0)
    b.emit("pub " + re.sub(r"(\n\s+)(\w+:)", r"\1pub \2", st.replace("pub struct", "struct")))
    b.emit("""impl<T> ToWriterBuilder<T> {
    pub open spec fn cfg(&self) -> Cfg<T> { Cfg { custom: self.custom_formatters@, ctx: self.print_context, lead: self.leading_indent@, step: self.indent_by@ } }
}
#[verifier::external_body]
pub fn str_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.chars().collect() }
impl<T> ToWriterBuilder<T> {""")
    B = "ToWriterBuilder<T, W>"

    def bfn(name):
        f = fn(name, B)
        f.sig = re.sub(r"pub\(crate\)\s*", "", f.sig).replace("impl Into<String>", "String").replace("-> (r: Self)", "-> (r: Self)").replace("'_, T, W", "'_, T")
        if "mut self" in f.sig:
            f.mut_self()
        f.sub_opt("$s:tok.to_owned()", "str_to_string($s)").sub_opt("s.into()", "s").sub_opt("Box::new($x)", "$x")
        return f

    def same(*but):
        names = ["style", "custom_formatters", "indent_by", "leading_indent", "print_context"]
        return ", ".join(f"r.{n} == self.{n}" for n in names if n not in but)

    b.fn(bfn("new").prelude('proof { reveal_strlit("  "); assert("  "@ =~= seq![\' \', \' \']); }').contract("ensures r.style is Normal, r.custom_formatters@ =~= Seq::empty(), r.print_context is None, r.leading_indent@ =~= Seq::empty(), r.indent_by@ == seq![' ', ' ']"), "ToWriterBuilder::new")
    b.fn(bfn("compact").contract("ensures r.style is Compact, " + same("style")), "ToWriterBuilder::compact")
    b.fn(bfn("pretty").contract("ensures r.style == FormatStyle::Pretty(0), " + same("style")), "ToWriterBuilder::pretty")
    b.fn(bfn("leading_indent").contract("ensures r.leading_indent == s, " + same("leading_indent")), "ToWriterBuilder::leading_indent")
    b.fn(bfn("indent_by").contract("ensures r.indent_by == s, " + same("indent_by")), "ToWriterBuilder::indent_by")
    f = bfn("format_context")
    f.sig = f.sig.replace("f: F", "f: ContextPrinter<T>")
    b.fn(f.contract("ensures r.print_context == Some(f), " + same("print_context")), "ToWriterBuilder::format_context")
    f = bfn("add_custom_formatter")
    f.sig = f.sig.replace("f: F", "f: CustomFormatter<T>")
    b.fn(f.contract("ensures r.custom_formatters@ == self.custom_formatters@.push(f), " + same("custom_formatters")), "ToWriterBuilder::add_custom_formatter")
    f = bfn("as_formatter").sub_sig("writer: W", "writer: Out")
    f.sub_opt("custom_formatters: &self.custom_formatters", "custom_formatters: self.custom_formatters.as_slice()").sub_opt("&self.indent_by", "self.indent_by.as_str()").sub_opt("&self.leading_indent", "self.leading_indent.as_str()")
    b.fn(f.contract("ensures r.cfg() == self.cfg(), r.writer == writer, r.style == self.style"), "ToWriterBuilder::as_formatter")
    f = bfn("write").sub_sig("writer: W", "writer: Out").sub_sig("-> (r: Result<(), FmtError>)", "-> (r: (Result<(), FmtError>, Out))")
    f.sub("fmt_value(value, &mut formatter)", "{ let __r = fmt_value(value, &mut formatter); (__r, formatter.writer) }")
    OUT = "requires {d} ensures r.0 is Ok ==> r.1.text() =~= {w}.text() + {t}, r.0 is Err ==> r.1.failed() || !{p} /*@ T08 */"
    b.fn(f.contract(OUT.format(d="self.style is Pretty ==> depth(*value, room(self.style))", w="writer", t="r_val(self.cfg(), *value, self.style)", p="plain(*value)")), "ToWriterBuilder::write")
    b.emit("}")
    f = s.find_fn("default_builder", within="").sub_sig("<T, W: core::fmt::Write>", "<T>").sub_sig("ToWriterBuilder<T, W>", "(r: ToWriterBuilder<T>)")
    f.sub_opt("ToWriterBuilder::new()", "ToWriterBuilder::<T>::new()")
    b.emit("spec fn default_style(alternate: bool) -> FormatStyle { if alternate { FormatStyle::Pretty(0) } else { FormatStyle::Normal } }")
    b.emit("spec fn default_cfg<T>() -> Cfg<T> { Cfg { custom: Seq::empty(), ctx: None, lead: Seq::empty(), step: seq![' ', ' '] } }")
    b.fn(f.contract("ensures r.cfg() == default_cfg::<T>(), r.style == default_style(alternate)").attr(""))
    for ty, gen, inner, d, t, pl in (("ValueDef<T>", "<T>", "fmt_valuedef", "depth_def(*self, usize::MAX as int)", "r_def(default_cfg::<T>(), *self, default_style(alt))", "plain_def(*self)"), ("Value<T>", "<T>", None, "depth_def(self.value, usize::MAX as int)", "r_def(default_cfg::<T>(), self.value, default_style(alt))", "plain_def(self.value)"),
                                ("Composite<T>", "<T>", "fmt_composite", "depth_comp(*self, usize::MAX as int)", "r_comp(default_cfg::<T>(), *self, default_style(alt))", "plain_comp(*self)"), ("Variant<T>", "<T>", "fmt_variant", "depth_comp(self.values, usize::MAX as int)", "r_def(default_cfg::<T>(), ValueDef::Variant(*self), default_style(alt))", "plain_comp(self.values)"),
                                ("Primitive", "", "fmt_primitive", "true", "r_prim(sp(*self))", "(!(*self is U256) && !(*self is I256))")):
        f = s.find_fn("fmt", within=f"Display for {ty}")
        f.sig = f"fn display(&self, f: Out, alt: bool) -> (r: (Result<(), FmtError>, Out))"
        f.sub_opt("f.alternate()", "alt").sub_opt("self.value.fmt(f)", "self.value.display(f, alt)").sub_opt("default_builder::<(), _>", "default_builder::<()>")
        if inner:
            f.sub(inner + "(self, &mut builder.as_formatter(f))", "{ let mut __f = builder.as_formatter(f); let __r = " + inner + "(self, &mut __f); (__r, __f.writer) }")
            f.sub_opt("let builder = default_builder(alt);", "let builder = default_builder::<T>(alt);")
        b.emit(f"impl{gen} {ty} {{")
        b.fn(f.contract(OUT.format(d=d, w="f", t=t, p=pl)), f"Display for {ty}")
        b.emit("}")
