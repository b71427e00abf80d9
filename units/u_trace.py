"""scale_impls/tracing_decoder: the decoder that says where it failed (S04, S12, and S01 of its primitives)."""
import re
from units import lib_value, lib_text, lib_scale, lib_decode
from units.lib_decode import expand_macro
from vf.rust import Fn, LostAnchor, find_all, lex
PROPS = ["S04", "S01", "S12"]
_NUM = "bool char u8 u16 u32 u64 u128 u256 i8 i16 i32 i64 i128 i256".split()
FN_PROPS = {**{"visit_" + n: ["S01", "S04"] for n in _NUM}, **{n: ["S04"] for n in "limit_is_high with_outer_context map_decoded_so_far visit_sequence visit_array visit_tuple visit_variant visit_composite visit_str visit_bitsequence unnamed_items decode_as_type".split()}, **{n: ["S04", "S12"] for n in "with_outer_context map_decoded_so_far visit_sequence visit_array visit_tuple visit_variant visit_composite fields_unnamed_items sequence_unnamed_items array_unnamed_items tuple_unnamed_items".split()}, **{n: ["S12"] for n in "at at_idx at_field at_variant at_path show new".split()}}

GLUE = r"""
pub open spec fn tr() -> Cfg { Cfg { lim: Some(MAX_CAPACITY as int), strict: false } }
// no list that fits is refused
pub proof fn limit_is_high() ensures MAX_CAPACITY >= 100_000_000 /*@ S04 */ { }
pub open spec fn same_id() -> spec_fn(TypeId) -> TypeId { |id: TypeId| id }
// derived Clone copies
#[verifier::external_body]
pub fn clone_any<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
pub open spec fn is_pushed(a: Seq<(String, Value<TypeId>)>, b: Seq<(String, Value<TypeId>)>, n: Seq<char>, v: Value<TypeId>) -> bool { a.len() == b.len() + 1 && (forall|i: int| 0 <= i < b.len() ==> #[trigger] a[i] == b[i]) && a[b.len() as int].0@ == n && a[b.len() as int].1 == v }
pub open spec fn seg(p: PathSegment) -> Seg { match p { PathSegment::Field(n) => Seg::Field(n@), PathSegment::Index(i) => Seg::Index(i as int), PathSegment::Variant(n) => Seg::Variant(n@) } }
pub open spec fn segs(p: Path) -> Seq<Seg> { p.0@.map_values(|s: PathSegment| seg(s)) }
pub broadcast proof fn segs_push(p: Path, q: Path, s: PathSegment) ensures #![trigger segs(p), q.0@.push(s)] p.0@ == q.0@.push(s) ==> segs(p) == segs(q).push(seg(s)) { if p.0@ == q.0@.push(s) { assert(segs(p) =~= segs(q).push(seg(s))); } }
pub broadcast proof fn segs_none(p: Path) ensures p.0@.len() == 0 ==> #[trigger] segs(p) == Seq::<Seg>::empty() { if p.0@.len() == 0 { assert(segs(p) =~= Seq::<Seg>::empty()); } }
impl<'a> Items<'a> { pub open spec fn broke(&self) -> Broke { broke(self.reg(), self.bytes(), ids(self.left()), self.cpt(), self.below()) } }
// an error that says so, of a decoder that started from some place
pub open spec fn placed(e: TraceDecodingError<Value<TypeId>>, base: Seq<Seg>, p: Place) -> bool { match p { None => e.inner is FromDecodeError, Some((w, t)) => e.inner is FromVisitor && segs(e.inner->FromVisitor_0.at) == base + w && denotes(e.inner->FromVisitor_0.decoded_so_far, t, same_id()) } }
pub open spec fn placed_comp(e: TraceDecodingError<Composite<TypeId>>, base: Seq<Seg>, p: CPlace) -> bool { match p { None => e.inner is FromDecodeError, Some((w, t)) => e.inner is FromVisitor && segs(e.inner->FromVisitor_0.at) == base + w && denotes_comp(e.inner->FromVisitor_0.decoded_so_far, t, same_id()) } }
pub broadcast proof fn seq_facts(a: Seq<Seg>, s: Seg, w: Seq<Seg>) ensures #[trigger] ((a + (seq![s] + w))) == a.push(s) + w { assert(a + (seq![s] + w) =~= a.push(s) + w); }
pub broadcast proof fn seq_fact1(a: Seq<Seg>, s: Seg) ensures #[trigger] (a + seq![s]) == a.push(s) { assert(a + seq![s] =~= a.push(s)); }
// a refusal of this decoder's own
#[verifier::external_body]
pub fn codec_error(m: &str) -> (r: BitErr) ensures derr(DErr::Bits(r)) == derr(DErr::TooMany) { unimplemented!() }
#[verifier::external_body]
pub fn decode_error_of(e: BitErr) -> (r: DecodeError) ensures r == derr(DErr::Bits(e)) { unimplemented!() }
impl<Val> TraceDecodingError<Val> { pub open spec fn cause(&self) -> DecodeError { match self.inner { TraceDecodingErrorInner::FromDecodeError(e) => e, TraceDecodingErrorInner::FromVisitor(v) => v.decode_error } } }
pub proof fn round(i: Items<'_>, acc: Seq<Tree>, cfg: Cfg)
    requires i.ok(), i.left().len() > 0
    ensures match dec(i.reg(), i.bytes(), i.left()[0].id, i.cpt(), cfg) { Ok((t, rest)) => prepend(acc, i.rest(cfg)) == prepend(acc.push(t), dec_items(i.reg(), rest, ids(i.left().skip(1)), i.cpt(), cfg, i.below())), Err(e) => i.rest(cfg) == Err::<(Seq<Tree>, Seq<u8>), DecodeError>(e) },
        cfg == tr() ==> match dec(i.reg(), i.bytes(), i.left()[0].id, i.cpt(), cfg) { Ok((t, rest)) => onto(acc, i.broke()) == onto(acc.push(t), broke(i.reg(), rest, ids(i.left().skip(1)), i.cpt(), i.below())), Err(e) => i.broke() == (Broke { before: Seq::empty(), inner: place(i.reg(), i.bytes(), i.left()[0].id, i.cpt()) }) && acc + Seq::<Tree>::empty() == acc },
        forall|a: Seq<Seg>, s: Seg, w: Seq<Seg>| #[trigger] (a + (seq![s] + w)) == a.push(s) + w, forall|a: Seq<Seg>, s: Seg| #[trigger] (a + seq![s]) == a.push(s),
{ broadcast use seq_facts, seq_fact1; assert(acc + Seq::<Tree>::empty() =~= acc);
    i.unfold(cfg);
    match dec(i.reg(), i.bytes(), i.left()[0].id, i.cpt(), cfg) { Ok((t, rest)) => {
        if cfg == tr() { let b = broke(i.reg(), rest, ids(i.left().skip(1)), i.cpt(), i.below()); assert(acc + (seq![t] + b.before) =~= acc.push(t) + b.before); }
        match dec_items(i.reg(), rest, ids(i.left().skip(1)), i.cpt(), cfg, i.below()) { Ok((us, after)) => { assert(acc + (seq![t] + us) =~= acc.push(t) + us); } Err(e) => {} }
    } Err(e) => {} }
}
"""
# ---- the message
SHOW = r"""
pub open spec fn digit(n: nat) -> char { (48 + n % 10) as u8 as char }
pub open spec fn udec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { udec(n / 10).push(digit(n)) } }
pub open spec fn seg_text(s: Seg) -> Seq<char> { match s { Seg::Field(n) => n, Seg::Variant(n) => n, Seg::Index(i) => seq!['['] + udec(i as nat) + seq![']'] } }
pub open spec fn place_text(s: Seq<Seg>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { place_text(s.drop_last()) + seq!['.'] + seg_text(s.last()) } }
pub open spec fn upto(p: Path, n: int) -> Seq<char> { place_text(p.0@.take(n).map_values(|s: PathSegment| seg(s))) }
pub proof fn upto_step(p: Path, n: int) requires 0 <= n < p.0@.len() ensures upto(p, n + 1) == upto(p, n) + seq!['.'] + seg_text(seg(p.0@[n]))
{ let v = p.0@; let a = v.take(n + 1).map_values(|s: PathSegment| seg(s)); let b = v.take(n).map_values(|s: PathSegment| seg(s)); assert(a.drop_last() =~= b); assert(a.last() == seg(v[n])); }
pub proof fn upto_ends(p: Path) ensures upto(p, 0) == Seq::<char>::empty(), upto(p, p.0@.len() as int) == place_text(segs(p)) { assert(p.0@.take(p.0@.len() as int) =~= p.0@); }
// what Display writes of something
pub trait Shown {
    spec fn shown(&self) -> Seq<char>;
    fn show(&self, f: &mut Out) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(f).text() =~= old(f).text() + self.shown() && final(f).failed() == old(f).failed() /*@ S12 */, r is Err ==> final(f).failed() /*@ S12 */;
}
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { udec(*self as nat) } #[verifier::external_body] fn show(&self, f: &mut Out) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } fn show(&self, f: &mut Out) -> (r: Result<(), FmtError>) { f.write_str(self.as_str()) } }
pub uninterp spec fn why(e: DecodeError) -> Seq<char>;
impl Shown for DecodeError { open spec fn shown(&self) -> Seq<char> { why(*self) } #[verifier::external_body] fn show(&self, f: &mut Out) -> (r: Result<(), FmtError>) { unimplemented!() } }
// the text of a value whose contexts are type ids
pub uninterp spec fn typed_text(v: Value<TypeId>) -> Seq<char>;
#[verifier::external_body]
pub fn display_value_with_typeid(f: &mut Out, value: &Value<TypeId>) -> (r: Result<(), FmtError>)
    ensures r is Ok ==> final(f).text() =~= old(f).text() + typed_text(*value) && final(f).failed() == old(f).failed(), r is Err ==> final(f).failed() { unimplemented!() }
pub open spec fn message(e: TraceDecodingError<Value<TypeId>>) -> Seq<char> {
    match e.inner {
        TraceDecodingErrorInner::FromDecodeError(d) => "Error decoding value: "@ + why(d),
        TraceDecodingErrorInner::FromVisitor(v) => "Error decoding value at "@ + place_text(segs(v.at)) + ": "@ + why(v.decode_error) + "\nDecoded so far:\n\n"@ + typed_text(v.decoded_so_far),
    }
}
"""
# what this visitor's results are
TRACE = lib_decode.Says("tr()", "denotes({x}, {t}, same_id())", "{x}.cause() == {e} && placed({x}, segs({v}.path), {p})")
CAUSE = lib_decode.Says("tr()", "denotes({x}, {t}, same_id())", "{x}.cause() == {e}")
CALLS = f"""
impl<'a> Items<'a> {{
    #[verifier::external_body]
    pub fn decode_item(&mut self, visitor: TraceDecodingVisitor) -> (r: Option<Result<Value<TypeId>, TraceDecodingError<Value<TypeId>>>>)
        {TRACE.decode_item()}
    {{ unimplemented!() }}
}}
#[verifier::external_body]
pub fn decode_with_visitor(data: &mut &[u8], ty_id: TypeId, types: &Registry, visitor: TraceDecodingVisitor) -> (r: Result<Value<TypeId>, TraceDecodingError<Value<TypeId>>>)
    {TRACE.decode_with_visitor("false")}
{{ unimplemented!() }}
"""

LOOP = """let ghost mut __acc: Seq<Tree> = Seq::empty(); let ghost mut __prev = *$o; proof { match __prev.rest(tr()) { Ok((__ts, __r)) => { assert(Seq::<Tree>::empty() + __ts =~= __ts); } Err(_) => {} } assert(Seq::<Tree>::empty() + __prev.broke().before =~= __prev.broke().before); }
 while let Some($v) = $o.decode_item($x) { proof { round(__prev, __acc, tr()); __prev.unfold(tr()); match dec(__prev.reg(), __prev.bytes(), __prev.left()[0].id, __prev.cpt(), tr()) { Ok((t, rest)) => { __acc = __acc.push(t); } Err(_) => {} } __prev = *$o; }"""
INV = """invariant old({v}).fresh(), __prev == *{v}, {v}.ok(), {v}.same(old({v})), __acc.len() == {v}.all().len() - {v}.left().len(), prepend(__acc, __prev.rest(tr())) == old({v}).rest(tr()), onto(__acc, __prev.broke()) == old({v}).broke(), {more}
    ensures {v}.left().len() == 0 decreases {v}.left().len()"""
UNN = "vals@.len() == __acc.len(), forall|i: int| 0 <= i < vals@.len() ==> denotes(#[trigger] vals@[i], __acc[i], same_id())"
NAM = "vals@.len() == __acc.len(), named_fields(old({v}).all()), {v}.left().len() > 0 ==> {v}.left()[0].name is Some && name@ == {v}.left()[0].name->Some_0, forall|i: int| 0 <= i < vals@.len() ==> denotes_item(#[trigger] vals@[i], (old({v}).all()[i].name->Some_0, __acc[i]), same_id())"
VAL, ERR = "Value<TypeId>", "TraceDecodingError<Value<TypeId>>"
PATHS = (("&mut scale_decode::visitor::types::Sequence<$x>", "&mut Items<'_>"), ("&mut scale_decode::visitor::types::Tuple<$x>", "&mut Items<'_>"), ("&mut scale_decode::visitor::types::Array<$x>", "&mut Items<'_>"),
         ("&mut scale_decode::visitor::types::Composite<$x>", "&mut Items<'_>"), ("&mut scale_decode::visitor::types::Variant<$x>", "&mut VariantItems<'_>"),
         ("&mut scale_decode::visitor::types::BitSequence<$x>", "&mut BitItems<'_>"), ("&mut scale_decode::visitor::types::Str<$x>", "&mut StrItem<'_>"))


def clean(f):
    f.sub_opt("$x:ident.map_err(|$e:ident| $b)?", "(match $x { Ok(__v) => __v, Err($e) => { return Err($b); } })")
    f.sub_opt("$x:ident($a).map_err(|$e:ident| $b)?", "(match $x($a) { Ok(__v) => __v, Err($e) => { return Err($b); } })")
    f.sub_opt("{$x}.map_err(|$e:ident| $b)?", "(match {$x} { Ok(__v) => __v, Err($e) => { return Err($b); } })")
    FD = "(match $x.{m}() {{ Ok(__v) => __v, Err(__e) => {{ return Err(TraceDecodingError::from_decode_error(__e)); }} }})"
    f.sub_opt("$x:ident.decode()?", FD.format(m="decode")).sub_opt("$x:ident.as_str()?", FD.format(m="as_str"))
    f.sub_opt("ValueDef::BitSequence($x:ident?)", "ValueDef::BitSequence(match $x { Ok(__v) => __v, Err(__e) => { return Err(TraceDecodingError::from_codec(__e)); } })")
    f.sub_opt("let $x:ident: codec::Error = $m.into();", "let $x: BitErr = codec_error($m);")
    f.sub_opt("let $x:ident: TraceDecodingError<_> = $y:ident.into();", "let $x: TraceDecodingError<Composite<TypeId>> = TraceDecodingError::from_codec($y);")
    f.sub_opt("$x:ident.clone()", lambda e: "type_id.clone()" if e["x"] == "type_id" else f"clone_any(&{e['x']})")
    f.sub_opt("$x:ident.to_owned()", "$x.to_string()").sub_opt(".to_owned()", ".to_string()")
    f.sub_opt("vec![]", "Vec::new()")
    f.sub_opt("Ok::<_, TraceDecodingError<_>>($x)", "Ok::<Composite<TypeId>, TraceDecodingError<Composite<TypeId>>>($x)")
    return f


SO_FAR = {
    "idx": ("segs(r) == segs(this.path).push(Seg::Index(idx as int))", "Composite<TypeId>", "r is Unnamed && r->Unnamed_0@ == vals@", "Composite<TypeId>", "Value<TypeId>", "r is Unnamed && r->Unnamed_0@ == vals@.push(__i)"),
    "name": ("segs(r) == segs(this.path).push(Seg::Field(name@))", "Composite<TypeId>", "r is Named && r->Named_0@ == vals@", "Composite<TypeId>", "Value<TypeId>", "r is Named && is_pushed(r->Named_0@, vals@, name@, __i)"),
    "variant": ("segs(r) == segs(path)", VAL, "r.context == type_id && r.value is Variant && r.value->Variant_0.name@ == variant_name@ && r.value->Variant_0.values is Unnamed && r.value->Variant_0.values->Unnamed_0@.len() == 0", VAL, "Composite<TypeId>", "r.context == type_id && r.value is Variant && r.value->Variant_0.name@ == variant_name@ && r.value->Variant_0.values == __i"),
}


def one_of(f, pats, to):
    """exactly one place in the function, written with or without a trailing comma"""
    n = [len(find_all(f.body, p)) for p in pats]
    if sum(n) != 1:
        raise LostAnchor(f"{f.name}: expected one of {pats[0]!r}, found {sum(n)}")
    return f.sub(pats[n.index(1)], to, count=1)


def so_far(f, kind):
    """the closures that say where a decoding error is, under contract"""
    p, dt, d, t, it, i = SO_FAR[kind]
    pat = "$e:ident.with_outer_context(|| $a, || $d, |$v:ident| $x:rest"
    return one_of(f, (pat + ")", pat + ",)"), f"$e.with_outer_context(|| -> (r: Path) ensures {p} {{ $a }}, || -> (r: {dt}) ensures {d} {{ $d }}, |__i: {it}| -> (r: {t}) ensures {i} {{ let $v = __i; $x }})")


def outer(f):
    pat = "$e:ident.map_decoded_so_far(|$c:ident| $x:rest"
    return one_of(f, (pat + ")", pat + ",)"), "$e.map_decoded_so_far(|__c: Composite<TypeId>| -> (r: Value<TypeId>) ensures r.value == ValueDef::Composite(__c), r.context == type_id { let $c = __c; $x })")


def show(f):
    """write!(f, "..{}..", args) step by step"""
    for m in reversed(find_all(f.body, "write!($f:ident, $s:tok $r)")):
        a, e, env = m
        fmt, args = env["s"].strip(), env["r"].strip().strip(",").strip()
        if not (fmt.startswith('"') and fmt.endswith('"')):
            raise LostAnchor("a format string that is not one")
        args = [x.strip() for x in args.split(",")] if args else []
        if any(not re.fullmatch(r"[\w.]+", x) for x in args):
            raise LostAnchor("an argument of write! that is not a field")
        parts, n = [], 0
        for t in re.findall(r"\{[^}]*\}|[^{]+", fmt[1:-1]):
            if t.startswith("{"):
                x = t[1:-1]
                if x and not re.fullmatch(r"\w+", x):
                    raise LostAnchor("a format argument with options")
                x = x or args[n]
                n += t == "{}"
                parts.append(f"{x}.show({env['f']})")
            else:
                parts.append(f'{env["f"]}.write_str("{t}")')
        if n != len(args):
            raise LostAnchor("arguments of write! left over")
        w = parts[-1]
        for q in reversed(parts[:-1]):
            w = f"(match {q} {{ Err(__e) => Err(__e), Ok(_) => {w} }})"
        f.body = f.body[:a] + w + f.body[e:]
    f.applied.append("write! expanded into its steps")
    return f


def lits(f, *more):
    """what the string literals are"""
    return " ".join(f"reveal_strlit({t});" for t in dict.fromkeys([t.s for t in lex(f.body) if t.s.startswith('"')] + list(more)))


def lift(b, f, who):
    """the local closure of to_unnamed_composite! becomes a function"""
    ms = find_all(f.body, "let mut $f:ident = move || { $body }; $f()")
    if len(ms) != 1:
        raise LostAnchor(f"{who}: expected one local closure, found {len(ms)}")
    a, e, env = ms[0]
    body = env["body"]
    me = "self" if any(t.s == "self" for t in lex(body)) else "this"
    if me == "self":
        for t in reversed(lex(body)):
            if t.k == "id" and t.s == "self":
                body = body[: t.a] + "this" + body[t.b :]
    g = Fn("unnamed_items", "fn " + who + "_unnamed_items(this: &TraceDecodingVisitor, value: &mut Items<'_>) -> (r: Result<Composite<TypeId>, TraceDecodingError<Composite<TypeId>>>) {" + body + "}", f.file)
    clean(g)
    so_far(g, "idx")
    g.sub("while let Some($v:ident) = $o:ident.decode_item($x) {", LOOP, count=1)
    g.loop(0, INV.format(v="value", more="idx == __acc.len(), !over(old(value).all().len() as int, tr()), " + UNN), 1)
    b.fn(g.contract("""requires old(value).fresh()
        ensures final(value).same(old(value)), final(value).ok(), r is Ok ==> final(value).left().len() == 0,
            match dec_list(old(value).reg(), old(value).bytes(), ids(old(value).all()), old(value).cpt(), tr(), old(value).below()) { Ok((ts, rest)) => r is Ok && denotes_comp(r->Ok_0, TComp::Unnamed(ts), same_id()) && final(value).bytes() == rest, Err(e) => r is Err && r->Err_0.cause() == e } /*@ S04 */,
            r is Err ==> placed_comp(r->Err_0, segs(this.path), place_list(old(value).reg(), old(value).bytes(), ids(old(value).all()), old(value).cpt(), old(value).below())) /*@ S12 */"""), who + ": to_unnamed_composite!")
    f.body = f.body[:a] + f"{who}_unnamed_items({'&self' if me == 'self' else 'this'}, value)" + f.body[e:]
    f.applied.append("local closure lifted to a function")
    return f


def sig(f):
    for p in (("<'scale, 'info>", ""), ("<'scale, 'resolver>", ""), ("<'info>", ""), *PATHS, ("scale_decode::visitor::TypeIdFor<Self>", "TypeId"), ("TypeIdFor<Self>", "TypeId"), ("Self::Value<$x>", VAL), ("Self::Value", VAL), ("Self::Error", ERR)):
        f.sub_sig(*p, minimum=0)
    return f.result()


def build(b):
    v = lib_value.types(b)
    b.emit("use vstd::utf8::*;\nuse vstd::string::*;\n")
    b.emit(re.sub(r"\bPath\b", "TypePath", lib_scale.REGISTRY))
    b.emit(lib_decode.NUM)
    b.emit(lib_decode.BYTES)
    b.emit(lib_decode.SPEC)
    b.emit(lib_decode.PLACE)
    b.emit(lib_decode.ITEMS)
    p = b.src("src/scale_impls/tracing_decoder/path.rs")
    e = b.src("src/scale_impls/tracing_decoder/error.rs")
    s = b.src("src/scale_impls/tracing_decoder/visitor.rs")
    w = lambda t: re.sub(r"^(\s*)(?!pub)(\w+:)", r"\1pub \2", t, flags=8)
    pub = lambda t: t if t.startswith("pub") else "pub " + t
    b.emit(pub(p.find_item("enum", "PathSegment")))
    b.emit("pub struct Path(pub Vec<PathSegment>);")
    if [x[2]["x"].strip() for x in find_all(p.text, "pub struct Path($x);")] != ["Vec<PathSegment>"]:
        raise LostAnchor("Path holds something else")
    b.emit(pub(w(e.find_item("struct", "TraceDecodingError"))).replace("crate::", ""))
    b.emit(pub(e.find_item("enum", "TraceDecodingErrorInner")))
    b.emit(pub(w(e.find_item("struct", "VisitorError"))))
    b.emit(pub(s.find_item("const", "MAX_CAPACITY")))
    b.emit("pub struct TraceDecodingVisitor { pub path: Path }")
    b.emit(GLUE)
    b.emit(lib_text.OUT2)
    b.emit(SHOW)
    fix = lambda f: f.sub_sig("&mut core::fmt::Formatter<'_>", "&mut Out").sub_sig("core::fmt::Result", "Result<(), FmtError>").result()
    f = show(fix(p.find_fn("fmt", within="Display for Path").sub_sig("fn fmt", "fn show")))
    f.sub("for $x:ident in &self.0 {", "for $x in __it: self.0.iter() { proof { let __n = __it.index@; upto_step(*self, __n); " + lits(f) + " }", count=1)
    f.loop(0, "invariant f.text() =~= old(f).text() + upto(*self, __it.index@), f.failed() == old(f).failed()", 1)
    f.prelude("proof { upto_ends(*self); }")
    b.emit("impl Shown for Path { open spec fn shown(&self) -> Seq<char> { place_text(segs(*self)) }")
    b.fn(f, "Path: Display")
    b.emit("}\nimpl Shown for TraceDecodingError<Value<TypeId>> { open spec fn shown(&self) -> Seq<char> { message(*self) }")
    f = show(fix(e.find_fn("fmt", within="Display for TraceDecodingError").sub_sig("fn fmt", "fn show")))
    LITS = [t.s for t in lex(SHOW.split("fn message")[1]) if t.s.startswith('"')]
    b.fn(f.prelude("proof { " + lits(f, *LITS) + " }"), "TraceDecodingError: Display")
    b.emit("}")

    b.emit("impl Path {")
    BP = "broadcast use segs_push, segs_none;"
    f = p.find_fn("new", within="impl Path").sub_opt("vec![]", "Vec::new()").result()
    b.fn(f.prelude(BP).contract("ensures segs(r) == Seq::<Seg>::empty() /*@ S12 */"), "Path::new")
    for n, s1 in (("at_idx", "Seg::Index(idx as int)"), ("at_field", "Seg::Field(field@)"), ("at_variant", "Seg::Variant(variant@)")):
        b.fn(p.find_fn(n, within="impl Path").result().contract(f"ensures segs(r) == segs(*self).push({s1}) /*@ S12 */"), f"Path::{n}")
    f = p.find_fn("at", within="impl Path").sub_opt("self.0.clone()", "clone_any(&self.0)").sub_opt("let mut $x:ident = $y;", "let mut $x: Vec<PathSegment> = $y;")
    b.fn(f.result().prelude(BP).contract("ensures segs(r) == segs(*self).push(seg(segment)) /*@ S12 */"), "Path::at")
    b.emit("}")

    # ---- errors keep their cause
    b.emit("impl<Val> TraceDecodingError<Val> {")
    for hdr, new, arg in (("From<TraceDecodingErrorInner<Val>> for TraceDecodingError", "from_inner", None), ("From<DecodeError> for TraceDecodingError", "from_decode_error", "value"), ("From<codec::Error> for TraceDecodingError", "from_codec", "value")):
        f = e.find_fn("from", within=hdr).sub_sig("fn from", f"fn {new}").sub_sig("-> Self", "-> (r: Self)").sub_sig("codec::Error", "BitErr", minimum=0)
        f.sub_opt("$x:ident.into()", "decode_error_of($x)" if new == "from_codec" else "$x.into()").sub_opt("TraceDecodingErrorInner::$v:ident($x).into()", "TraceDecodingError::from_inner(TraceDecodingErrorInner::$v($x))")
        b.fn(f.contract({"from_inner": "ensures r.inner == value", "from_decode_error": "ensures r.cause() == value /*@ S04 S12 */, r.inner is FromDecodeError /*@ S12 */", "from_codec": "ensures r.cause() == derr(DErr::Bits(value)) /*@ S04 S12 */, r.inner is FromDecodeError /*@ S12 */"}[new]), f"TraceDecodingError::{new}")
    INTO = ("TraceDecodingErrorInner::$v:ident($x).into()", "TraceDecodingError::from_inner(TraceDecodingErrorInner::$v($x))")
    f = e.find_fn("map_decoded_so_far").sub_sig("fn map_decoded_so_far<NewVal>", "fn map_decoded_so_far<NewVal, F1: FnOnce(Val) -> NewVal>").sub_sig("impl FnOnce(Val) -> NewVal", "F1").sub_sig("-> TraceDecodingError<NewVal>", "-> (r: TraceDecodingError<NewVal>)").sub_sig("pub(crate)", "pub", minimum=0)
    f.sub_opt(*INTO)
    b.fn(f.contract("""requires forall|x: Val| f.requires((x,)) ensures r.cause() == self.cause() /*@ S04 S12 */,
            match self.inner { TraceDecodingErrorInner::FromDecodeError(e) => r.inner is FromDecodeError, TraceDecodingErrorInner::FromVisitor(v) => r.inner is FromVisitor && r.inner->FromVisitor_0.at == v.at && f.ensures((v.decoded_so_far,), r.inner->FromVisitor_0.decoded_so_far) } /*@ S12 */"""), "TraceDecodingError::map_decoded_so_far")
    f = e.find_fn("with_outer_context").sub_sig("fn with_outer_context<NewVal>", "fn with_outer_context<NewVal, F1: FnOnce() -> Path, F2: FnOnce() -> NewVal, F3: FnOnce(Val) -> NewVal>").sub_sig("impl FnOnce() -> Path", "F1").sub_sig("impl FnOnce() -> NewVal", "F2").sub_sig("impl FnOnce(Val) -> NewVal", "F3").sub_sig("-> TraceDecodingError<NewVal>", "-> (r: TraceDecodingError<NewVal>)").sub_sig("pub(crate)", "pub", minimum=0)
    f.sub_opt(*INTO)
    b.fn(f.contract("""requires outer_path.requires(()), default_outer_value.requires(()), forall|x: Val| into_outer_value.requires((x,)) ensures r.cause() == self.cause() /*@ S04 S12 */,
            r.inner is FromVisitor && match self.inner { TraceDecodingErrorInner::FromDecodeError(e) => outer_path.ensures((), r.inner->FromVisitor_0.at) && default_outer_value.ensures((), r.inner->FromVisitor_0.decoded_so_far), TraceDecodingErrorInner::FromVisitor(v) => r.inner->FromVisitor_0.at == v.at && into_outer_value.ensures((v.decoded_so_far,), r.inner->FromVisitor_0.decoded_so_far) } /*@ S12 */"""), "TraceDecodingError::with_outer_context")
    b.emit("}")
    b.emit(CALLS)

    b.emit("impl Value<TypeId> {")
    b.fn(v.find_fn("with_context", within="impl<T> Value<T>").sub_sig("-> Value<T>", "-> (r: Value<TypeId>)", minimum=0).sub_sig("ValueDef<T>", "ValueDef<TypeId>", minimum=0).sub_sig("context: T", "context: TypeId", minimum=0).contract("ensures r.value == value, r.context == context"), "Value::with_context")
    b.emit("}\nimpl TraceDecodingVisitor {")
    f = s.find_fn("new", within="TraceDecodingVisitor").sub_opt(", marker: PhantomData", "")
    b.fn(f.result().contract("ensures segs(r.path) == Seq::<Seg>::empty() /*@ S12 */"), "TraceDecodingVisitor::new")
    for n, s1 in (("at_path", "r.path == path"), ("at_idx", "segs(r.path) == segs(self.path).push(Seg::Index(idx as int))"), ("at_field", "segs(r.path) == segs(self.path).push(Seg::Field(field@))")):
        f = s.find_fn(n, within="TraceDecodingVisitor").sub_opt(", marker: PhantomData", "").result()
        b.fn(f.contract(f"ensures {s1} /*@ S12 */"), f"TraceDecodingVisitor::{n}")
    b.emit("}")

    # a struct's or variant's fields
    f = s.find_fn("visit_composite", within="").sub_sig("<R>", "", minimum=0).sub_sig("TraceDecodingVisitor<R>", "TraceDecodingVisitor", minimum=0)
    for q in PATHS:
        f.sub_sig(*q, minimum=0)
    f.sub_sig("where R: TypeResolver,", "", minimum=0).sub_sig("Composite<R::TypeId>", "Composite<TypeId>", minimum=0)
    f.result()
    expand_macro(s, f, "to_unnamed_composite")
    lift(b, f, "fields")
    clean(f)
    so_far(f, "name")
    f.sub("while let Some($v:ident) = $o:ident.decode_item($x) {", LOOP, count=1)
    f.sub_opt("Vec::with_capacity(len)", "with_capacity_at_most(len, Ghost(Some(value.all().len())))")
    f.loop(0, INV.format(v="value", more="old(value).in_type(), " + NAM.format(v="value")), 1)
    b.fn(f.contract("""requires old(value).fresh(), old(value).in_type()
        ensures final(value).same(old(value)), final(value).ok(), r is Ok ==> final(value).left().len() == 0,
            match dec_fields(old(value).reg(), old(value).bytes(), old(value).all(), old(value).cpt(), tr(), old(value).below()) { Ok((ts, rest)) => r is Ok && denotes_comp(r->Ok_0, gather(old(value).all(), ts), same_id()) && final(value).bytes() == rest, Err(e) => r is Err && r->Err_0.cause() == e } /*@ S04 */,
            r is Err ==> placed_comp(r->Err_0, segs(this.path), place_fields(old(value).reg(), old(value).bytes(), old(value).all(), old(value).cpt(), old(value).below())) /*@ S12 */"""), "visit_composite (free function)")

    W = "Visitor for TraceDecodingVisitor"

    fs = []
    for n in ("sequence", "tuple", "array"):
        f = sig(s.find_fn("visit_" + n, within=W))
        expand_macro(s, f, "to_unnamed_composite_value")
        expand_macro(s, f, "to_unnamed_composite")
        lift(b, f, n)
        fs.append((n, outer(clean(f))))
    b.emit("impl TraceDecodingVisitor {")

    def prim(n, val):
        f = sig(s.find_fn("visit_" + n, within=W))
        b.fn(clean(f).contract(f"ensures {CAUSE.prim(val)} /*@ S01 S04 */"), f"visit_{n}")

    prim("bool", "PT::Bool(value)")
    prim("char", "PT::Char(value)")
    for n in ("u128", "u8", "u16", "u32", "u64"):
        prim(n, "PT::U128(value as u128)")
    for n in ("i128", "i8", "i16", "i32", "i64"):
        prim(n, "PT::I128(value as i128)")
    prim("u256", "PT::U256(value@)")
    prim("i256", "PT::I256(value@)")
    def shows(kind, **kw):
        """the contract of scale_decode's visitor: the result, and where it failed if it did"""
        req, d, p, more = lib_decode.VISITS[kind](**kw)
        return f"requires {req}\n ensures {CAUSE.gives(d, kind)} /*@ S04 */,\n r is Err ==> placed(r->Err_0, segs(self.path), {p}) /*@ S12 */,\n {more}"

    for n, f in fs:
        b.fn(f.contract(shows("list")), f"visit_{n}")
    f = clean(sig(s.find_fn("visit_bitsequence", within=W)))
    f.sub_opt("Result<_, _>", "Result<BitSequence, BitErr>")
    b.fn(f.contract(shows("bits")), "visit_bitsequence")
    f = clean(sig(s.find_fn("visit_str", within=W)))
    b.fn(f.contract(shows("str")), "visit_str")
    f = so_far(clean(sig(s.find_fn("visit_variant", within=W))), "variant").prelude("broadcast use seq_facts, seq_fact1;")
    b.fn(f.contract(shows("variant")), "visit_variant")
    f = outer(clean(sig(s.find_fn("visit_composite", within=W))))
    b.fn(f.contract(shows("composite")), "visit_composite")
    b.emit("}")
    l = b.src("src/lib.rs")
    f = l.find_fn("decode_as_type", within=None, nth=1).sub_sig("fn decode_as_type<R>", "fn tracing_decode_as_type").sub_sig("R::TypeId", "TypeId").sub_sig("&R", "&Registry").sub_sig("where R: scale_type_resolver::TypeResolver,", "").sub_sig("crate::Value", "Value").result()
    f.sub("scale_decode::visitor::decode_with_visitor", "decode_with_visitor")
    b.fn(f.contract("""requires founded(*types)
        ensures match dec(*types, old(data)@, ty_id, false, tr()) { Ok((t, rest)) => r is Ok && denotes(r->Ok_0, t, same_id()) && final(data)@ == rest, Err(e) => r is Err && r->Err_0.cause() == e } /*@ S04 */, r is Err ==> placed(r->Err_0, Seq::empty(), place(*types, old(data)@, ty_id, false)) /*@ S12 */"""), "scale::tracing::decode_as_type")
