"""The type registry and its visitors, for the SCALE code."""
import re

from vf.rust import LostAnchor, lex, match_close

REGISTRY = r"""
// ---- scale_type_resolver: a registry gives each type id a shape
#[verifier::external_body]
pub struct TypeId { n: u32 }
impl TypeId {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: TypeId) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct ResolveError { n: u32 }
pub struct Path { }
pub struct Field<'a> { pub name: Option<&'a str>, pub id: TypeId }
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum PrimitiveType { Bool, Char, Str, U8, U16, U32, U64, U128, U256, I8, I16, I32, I64, I128, I256 }
#[derive(Clone, Copy)]
pub enum BitsStoreFormat { U8, U16, U32, U64 }
#[derive(Clone, Copy)]
pub enum BitsOrderFormat { Lsb0, Msb0 }
pub struct SField { pub name: Option<Seq<char>>, pub id: TypeId }
pub struct SVariant { pub index: u8, pub name: Seq<char>, pub fields: Seq<SField> }
pub enum Shape { NotFound, Composite(Seq<SField>), Variant(Seq<SVariant>), Sequence(TypeId), Array(TypeId, int), Tuple(Seq<TypeId>), Primitive(PrimitiveType), Compact(TypeId), BitSequence(BitsStoreFormat, BitsOrderFormat) }

pub open spec fn sfield(f: Field<'_>) -> SField { SField { name: match f.name { Some(s) => Some(s@), None => None }, id: f.id } }
pub open spec fn sfields(f: Seq<Field<'_>>) -> Seq<SField> { f.map_values(|x: Field<'_>| sfield(x)) }

// what a visitor is handed: iterators over fields and ids
#[verifier::external_body]
pub struct FieldIter<'a> { v: Vec<Field<'a>> }
impl<'a> FieldIter<'a> {
    pub uninterp spec fn left(&self) -> Seq<SField>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Field<'a>>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(), old(self).left().len() > 0 ==> r is Some && sfield(r->Some_0) == old(self).left()[0] && final(self).left() == old(self).left().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.left().len() { unimplemented!() }
}
#[verifier::external_body]
pub struct IdIter { v: Vec<TypeId> }
impl IdIter {
    pub uninterp spec fn left(&self) -> Seq<TypeId>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<TypeId>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(), old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.left().len() { unimplemented!() }
}
#[verifier::external_body]
pub struct VariantIter { v: u8 }
impl VariantIter { pub uninterp spec fn left(&self) -> Seq<SVariant>; }
pub enum Resolved<'a> { NotFound, Composite(Path, FieldIter<'a>), Variant(Path, VariantIter), Sequence(Path, TypeId), Array(TypeId, usize), Tuple(IdIter), Primitive(PrimitiveType), Compact(TypeId), BitSequence(BitsStoreFormat, BitsOrderFormat) }
pub open spec fn has_shape(r: Resolved<'_>, s: Shape) -> bool {
    match (r, s) {
        (Resolved::NotFound, Shape::NotFound) => true,
        (Resolved::Composite(_, f), Shape::Composite(g)) => f.left() == g,
        (Resolved::Variant(_, f), Shape::Variant(g)) => f.left() == g,
        (Resolved::Sequence(_, t), Shape::Sequence(u)) => t == u,
        (Resolved::Array(t, n), Shape::Array(u, m)) => t == u && n == m,
        (Resolved::Tuple(f), Shape::Tuple(g)) => f.left() == g,
        (Resolved::Primitive(p), Shape::Primitive(q)) => p == q,
        (Resolved::Compact(t), Shape::Compact(u)) => t == u,
        (Resolved::BitSequence(a, b), Shape::BitSequence(c, d)) => a == c && b == d,
        _ => false,
    }
}
#[verifier::external_body]
pub struct Registry { n: u32 }
impl Registry {
    pub uninterp spec fn shape(&self, id: TypeId) -> Result<Shape, ResolveError>;
    #[verifier::external_body]
    pub fn lookup(&self, id: TypeId) -> (r: Result<Resolved<'_>, ResolveError>)
        ensures match self.shape(id) { Ok(s) => r is Ok && has_shape(r->Ok_0, s), Err(e) => r is Err && r->Err_0 == e }
    { unimplemented!() }
    // no type is an endless chain of single-entry wrappers: wrappers can be ranked
    pub uninterp spec fn rank(&self, id: TypeId) -> nat;
    pub open spec fn ranked(&self) -> bool { forall|id: TypeId| (#[trigger] single(*self, id)) is Some ==> self.rank(single(*self, id)->Some_0) < self.rank(id) }
}
// the one entry of a wrapper: a struct or tuple with one entry, an array of length one
pub open spec fn single(reg: Registry, id: TypeId) -> Option<TypeId> {
    match reg.shape(id) {
        Ok(Shape::Tuple(ts)) => if ts.len() == 1 { Some(ts[0]) } else { None },
        Ok(Shape::Composite(fs)) => if fs.len() == 1 { Some(fs[0].id) } else { None },
        Ok(Shape::Array(t, n)) => if n == 1 { Some(t) } else { None },
        _ => None,
    }
}
// what is below all wrappers
pub open spec fn same_repr(reg: Registry, id: TypeId) -> TypeId decreases reg.rank(id) {
    match single(reg, id) { Some(t) => if reg.rank(t) < reg.rank(id) { same_repr(reg, t) } else { id }, None => id }
}
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (x: T) where E: std::marker::Destruct, T: std::marker::Destruct ensures x == (match r { Ok(y) => y, Err(_) => d });
// debug output of a thing
pub uninterp spec fn dbg<X>(x: X) -> String;
#[verifier::external_body]
pub fn debug_text<X>(x: &X) -> (r: String) ensures r == dbg(*x) { unimplemented!() }
"""

KINDS = {  # pattern of the arm, arguments handed to the closure after the context, their types
    "not_found": ("Resolved::NotFound", [], []),
    "composite": ("Resolved::Composite(__p, mut __f)", ["__p", "&mut __f"], ["Path", "&mut FieldIter<'_>"]),
    "variant": ("Resolved::Variant(__p, mut __f)", ["__p", "&mut __f"], ["Path", "&mut VariantIter"]),
    "sequence": ("Resolved::Sequence(__p, __t)", ["__p", "__t"], ["Path", "TypeId"]),
    "array": ("Resolved::Array(__t, __n)", ["__t", "__n"], ["TypeId", "usize"]),
    "tuple": ("Resolved::Tuple(mut __f)", ["&mut __f"], ["&mut IdIter"]),
    "primitive": ("Resolved::Primitive(__q)", ["__q"], ["PrimitiveType"]),
    "compact": ("Resolved::Compact(__t)", ["__t"], ["TypeId"]),
    "bit_sequence": ("Resolved::BitSequence(__s, __o)", ["__s", "__o"], ["BitsStoreFormat", "BitsOrderFormat"]),
}


def split_commas(src, a, b):
    """[(start, end)] of the comma separated pieces of src[a:b]"""
    toks = [t for t in lex(src[a:b])]
    out, st, i, pipes = [], a, 0, 0
    while i < len(toks):
        t = toks[i]
        if t.k == "op" and t.s in ("(", "[", "{"):
            i = match_close(toks, i) + 1
            continue
        if t.s == "|":
            pipes ^= 1
        if t.s == "," and not pipes:
            out.append((st, a + t.a))
            st = a + t.b
        i += 1
    if src[st:b].strip():
        out.append((st, b))
    return out


def closure(text):
    """|p, q| body  ->  ([p, q], body), type annotations of parameters dropped"""
    toks = lex(text)
    if not toks or toks[0].s != "|":
        return None
    j = 1
    while toks[j].s != "|":
        j = match_close(toks, j) + 1 if toks[j].s in ("(", "[", "{") else j + 1
    inner = text[toks[0].b : toks[j].a]
    ps = []
    for a, b in split_commas(inner, 0, len(inner)):
        p = inner[a:b].strip()
        pt = lex(p)
        i = 0
        while i < len(pt):
            if pt[i].s in ("(", "["):
                i = match_close(pt, i) + 1
                continue
            if pt[i].s == ":":
                p = p[: pt[i].a].strip()
                break
            i += 1
        ps.append(p)
    body = text[toks[j].b :].strip().rstrip(",").strip()
    return ps, body


def chain_at(src, toks, i):
    """toks[i] is `new` of visitor::new: -> (end token index, context text, {kind: closure})"""
    j = i + 1
    if toks[j].s == "::":
        j += 1
        d = 0
        while True:
            s = toks[j].s
            if s == "<":
                d += 1
            elif s == ">":
                d -= 1
            elif s == ">>":
                d -= 2
            elif s in ("(", "["):
                j = match_close(toks, j)
            j += 1
            if d == 0:
                break
    if toks[j].s != "(":
        raise LostAnchor("visitor::new has another shape")
    e = match_close(toks, j)
    args = split_commas(src, toks[j].b, toks[e].a)
    if len(args) != 2:
        raise LostAnchor("visitor::new has another shape")
    ctx = src[args[0][0] : args[0][1]].strip()
    arms = {"default": closure(src[args[1][0] : args[1][1]].strip())}
    j = e + 1
    while j + 2 < len(toks) and toks[j].s == "." and toks[j + 1].s.startswith("visit_"):
        e = match_close(toks, j + 2)
        c = closure(src[toks[j + 2].b : toks[e].a].strip())
        if c is None:
            raise LostAnchor("a visitor is given something other than a closure")
        arms[toks[j + 1].s[6:]] = c
        j = e + 1
    if arms["default"] is None:
        raise LostAnchor("a visitor is given something other than a closure")
    return j, ctx, arms


def expand_visitor(f, ctx_ty, ret, contracts=None, pre=""):
    """types.resolve_type(id, visitor::new(ctx, default).visit_x(closure)..)  ==>  a match over the shape that the
    registry gives for the id, each arm calling its closure"""
    contracts = contracts or {}
    src = f.body
    toks = lex(src)
    news = [i for i, t in enumerate(toks) if t.s == "new" and i >= 2 and toks[i - 1].s == "::" and toks[i - 2].s == "visitor"]
    if len(news) != 1:
        raise LostAnchor(f"{f.name}: expected one type visitor, found {len(news)}")
    i = news[0]
    end, ctx, arms = chain_at(src, toks, i)
    st = i - 2
    while toks[st - 1].s == "::":
        st -= 2
    out = []
    for k, (pat, args, tys) in [*KINDS.items(), ("default", ("_", [], []))]:
        c = arms.get(k)
        if k == "default":
            ps, body = arms["default"]
            args_k, tys_k = ["()"], ["()"]
            if all(x in arms for x in KINDS):
                continue
        elif c is None:
            continue
        else:
            ps, body = c
            args_k, tys_k = args, tys
        if len(ps) != 1 + len(args_k):
            raise LostAnchor(f"{f.name}: the visitor of {k} takes other arguments")
        con = contracts.get(k)
        if con is not None:
            names = [f"__a{n}" for n in range(len(ps))]
            decl = ", ".join(f"{n}: {t}" for n, t in zip(names, [ctx_ty, *tys_k]))
            lets = " ".join(f"let {p} = {n};" for p, n in zip(ps, names) if p != "_")
            out.append(f"{pat} => {{ let __k = |{decl}| -> (r: {ret}) {con} {{ {lets} {body} }}; __k({', '.join(['__ctx', *args_k])}) }}")
        else:
            if any(t.s in ("return", "?") for t in lex(body)):
                raise LostAnchor(f"{f.name}: the visitor of {k} returns early")
            lets = " ".join(f"let {p} = {n};" for p, n in zip(ps, ["__ctx", *args_k]) if p != "_")
            out.append(f"{pat} => {{ {lets} {body} }}")
    # the use
    uses = [n for n, t in enumerate(toks) if t.s == "resolve_type" and toks[n + 1].s == "("]
    if len(uses) != 1:
        raise LostAnchor(f"{f.name}: expected one resolve_type, found {len(uses)}")
    u = uses[0]
    ue = match_close(toks, u + 1)
    args = split_commas(src, toks[u + 1].b, toks[ue].a)
    if len(args) != 2:
        raise LostAnchor("resolve_type has another shape")
    ident = src[args[0][0] : args[0][1]].strip()
    recv = u - 2
    recv_txt = src[toks[recv].a : toks[recv].b]
    n = len(split_commas(ctx_ty, 1, len(ctx_ty) - 1)) if "&mut" in ctx_ty and ctx_ty.startswith("(") else 0
    drop = "let (" + ", ".join(f"__u{x}" for x in range(n)) + ") = __ctx; " if n else ""
    rep = f"({{ let __ctx: {ctx_ty} = {ctx}; match {recv_txt}.lookup({ident}) {{ Err(__e) => {{ {drop}Err(__e) }}, Ok(__sh) => Ok({{ {pre} match __sh {{ " + ",\n ".join(out) + " } }) } })"
    a, b = toks[recv].a, toks[ue].b
    if toks[st].a >= toks[u].a and toks[st].a < toks[ue].b:
        src = src[:a] + rep + src[b:]
    else:
        # let visitor = CHAIN;
        if not (toks[st - 1].s == "=" and toks[st - 3].s == "let" and toks[end].s == ";" and toks[end].b <= a):
            raise LostAnchor(f"{f.name}: the type visitor is made in another way")
        src = src[:a] + rep + src[b:]
        src = src[: toks[st - 3].a] + src[toks[end].b :]
    f.body = src
    f.applied.append("resolve_type(id, visitor::new(ctx, default).visit_x(closure)..)  ==>  match lookup(id) { each shape => its closure }")
    return f


def drop_fn(f, name):
    """cut a nested fn out of a body"""
    toks = lex(f.body)
    for i, t in enumerate(toks):
        if t.s == "fn" and toks[i + 1].s == name:
            j = i + 2
            while toks[j].s != "{":
                j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") else j + 1
            e = match_close(toks, j)
            f.body = f.body[: t.a] + f.body[toks[e].b :]
            f.applied.append(f"nested fn {name} is verified on its own")
            return f
    raise LostAnchor(f"no fn {name} in {f.name}")


def concrete(f):
    """R: TypeResolver  ==>  Registry"""
    for p, t in (("<T, R: TypeResolver>", "<T>"), ("<R: TypeResolver>", ""), ("R::TypeId", "TypeId"), ("types: &R", "types: &Registry")):
        f.sub_sig(p, t, minimum=0)
    f.sub_opt("R::TypeId", "TypeId").sub_opt("::<R>", "")
    return f
