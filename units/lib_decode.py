"""What decoding means: the specification of the decoders, and the contracts of scale_decode that they rest on."""
from vf.rust import LostAnchor, lex, match_close
import re

BYTES = r"""
pub open spec fn from_le(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { b[0] as int + 256 * from_le(b.skip(1)) } }
// what bytes of a number type stand for: two's complement
pub open spec fn num_of(p: PrimitiveType, b: Seq<u8>) -> int { if num_signed(p) && from_le(b) >= pow256(num_len(p)) / 2 { from_le(b) - pow256(num_len(p)) } else { from_le(b) } }
// what a compact number stands for, and how long it is
pub open spec fn compact_len(b: Seq<u8>) -> int { let m = b[0] as int % 4; if m == 0 { 1 } else if m == 1 { 2 } else if m == 2 { 4 } else { 5 + b[0] as int / 4 } }
pub open spec fn compact_of(b: Seq<u8>) -> int { let m = b[0] as int % 4; if m == 0 { b[0] as int / 4 } else if m != 3 { from_le(b) / 4 } else { from_le(b.skip(1)) } }
"""

# the parts of the encoder's vocabulary that decoding also speaks
NUM = r"""
pub open spec fn le(n: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) } }
pub open spec fn width(n: int) -> nat decreases n { if n <= 0 { 0 } else { 1 + width(n / 256) } }
pub open spec fn compact(n: int) -> Seq<u8> {
    if n < 64 { seq![(4 * n) as u8] } else if n < 0x4000 { le(4 * n + 1, 2) } else if n < 0x4000_0000 { le(4 * n + 2, 4) }
    else { seq![(4 * (width(n) - 4) + 3) as u8] + le(n, width(n)) }
}
pub open spec fn num_len(p: PrimitiveType) -> nat { match p { PrimitiveType::U8 | PrimitiveType::I8 => 1, PrimitiveType::U16 | PrimitiveType::I16 => 2, PrimitiveType::U32 | PrimitiveType::I32 => 4,
    PrimitiveType::U64 | PrimitiveType::I64 => 8, PrimitiveType::U128 | PrimitiveType::I128 => 16, _ => 0 } }
pub open spec fn num_unsigned(p: PrimitiveType) -> bool { p is U8 || p is U16 || p is U32 || p is U64 || p is U128 }
pub open spec fn num_signed(p: PrimitiveType) -> bool { p is I8 || p is I16 || p is I32 || p is I64 || p is I128 }
pub open spec fn pow256(k: nat) -> int decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
// bits in a store and order format, as scale_bits writes them
pub uninterp spec fn bits_bytes(b: Seq<bool>, s: BitsStoreFormat, o: BitsOrderFormat) -> Seq<u8>;
pub open spec fn repeat(n: nat, t: TypeId) -> Seq<TypeId> { Seq::new(n, |i: int| t) }
pub open spec fn ids(fs: Seq<SField>) -> Seq<TypeId> { fs.map_values(|f: SField| f.id) }
"""

SPEC = r"""
// ---- what decoding yields: a tree of named and unnamed things, each with the type it was decoded as
pub enum PT { Bool(bool), Char(char), Str(Seq<char>), U128(u128), I128(i128), U256(Seq<u8>), I256(Seq<u8>) }
pub struct Tree { pub def: TDef, pub id: TypeId }
pub enum TDef { Prim(PT), Bits(Seq<bool>), Comp(TComp), Var(Seq<char>, TComp) }
pub enum TComp { Named(Seq<(Seq<char>, Tree)>), Unnamed(Seq<Tree>) }

// a value that is such a tree, with contexts made from the type ids
pub open spec fn pt(p: Primitive) -> PT { match p { Primitive::Bool(b) => PT::Bool(b), Primitive::Char(c) => PT::Char(c), Primitive::String(s) => PT::Str(s@), Primitive::U128(n) => PT::U128(n), Primitive::I128(n) => PT::I128(n), Primitive::U256(b) => PT::U256(b@), Primitive::I256(b) => PT::I256(b@) } }
pub open spec fn denotes<C>(v: Value<C>, t: Tree, f: spec_fn(TypeId) -> C) -> bool decreases v { v.context == f(t.id) && denotes_def(v.value, t.def, f) }
pub open spec fn denotes_def<C>(v: ValueDef<C>, t: TDef, f: spec_fn(TypeId) -> C) -> bool decreases v {
    match (v, t) {
        (ValueDef::Primitive(p), TDef::Prim(q)) => pt(p) == q,
        (ValueDef::BitSequence(b), TDef::Bits(c)) => b.bits() == c,
        (ValueDef::Composite(c), TDef::Comp(d)) => denotes_comp(c, d, f),
        (ValueDef::Variant(x), TDef::Var(n, d)) => x.name@ == n && denotes_comp(x.values, d, f),
        _ => false,
    }
}
pub open spec fn denotes_comp<C>(c: Composite<C>, t: TComp, f: spec_fn(TypeId) -> C) -> bool decreases c {
    match (c, t) {
        (Composite::Named(v), TComp::Named(w)) => v@.len() == w.len() && forall|i: int| 0 <= i < v@.len() ==> denotes_item(#[trigger] v@[i], w[i], f),
        (Composite::Unnamed(v), TComp::Unnamed(w)) => v@.len() == w.len() && forall|i: int| 0 <= i < v@.len() ==> denotes(#[trigger] v@[i], w[i], f),
        _ => false,
    }
}
pub open spec fn denotes_item<C>(a: (String, Value<C>), b: (Seq<char>, Tree), f: spec_fn(TypeId) -> C) -> bool decreases a { a.0@ == b.0 && denotes(a.1, b.1, f) }

// ---- errors
#[verifier::external_body]
pub struct DecodeError { k: u8 }
pub enum DErr { NotFound(TypeId), Resolving(ResolveError), NotCompact, Codec(PrimitiveType, Seq<u8>), CompactCodec(int, Seq<u8>), InvalidChar(int), InvalidStr(Seq<u8>), NotEnough, NoVariant(u8), Bits(BitErr), TooMany, NotCanonical }
pub uninterp spec fn derr(e: DErr) -> DecodeError;
pub type DecR = Result<(Tree, Seq<u8>), DecodeError>;
pub type ManyR = Result<(Seq<Tree>, Seq<u8>), DecodeError>;

// ---- primitives
// a compact number: the one, if any, whose canonical encoding the bytes start with
pub open spec fn compact_read(b: Seq<u8>, max: int) -> Result<(int, Seq<u8>), DecodeError> {
    if b.len() == 0 || b.len() < compact_len(b) { Err(derr(DErr::CompactCodec(max, b))) } else {
        let l = compact_len(b); let n = compact_of(b.take(l));
        if 0 <= n <= max && compact(n) == b.take(l) { Ok((n, b.skip(l))) } else { Err(derr(DErr::CompactCodec(max, b))) }
    }
}
pub open spec fn code(c: char) -> int { c as int }
pub open spec fn is_char(n: int) -> bool { exists|c: char| #[trigger] code(c) == n }
pub open spec fn to_char(n: int) -> char { choose|c: char| #[trigger] code(c) == n }
pub open spec fn is_text(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] encode_utf8(s) == b }
pub open spec fn to_text(b: Seq<u8>) -> Seq<char> { choose|s: Seq<char>| #[trigger] encode_utf8(s) == b }
pub type PrimR = Result<(PT, Seq<u8>), DecodeError>;
pub open spec fn num_pt(p: PrimitiveType, n: int) -> PT { if num_unsigned(p) { PT::U128(n as u128) } else { PT::I128(n as i128) } }
pub open spec fn read_prim(b: Seq<u8>, p: PrimitiveType, cpt: bool) -> PrimR {
    if cpt {
        if !num_unsigned(p) { Err(derr(DErr::NotCompact)) } else { match compact_read(b, pow256(num_len(p)) - 1) { Ok((n, rest)) => Ok((PT::U128(n as u128), rest)), Err(e) => Err(e) } }
    } else if num_len(p) > 0 {
        if b.len() < num_len(p) { Err(derr(DErr::Codec(p, b))) } else { Ok((num_pt(p, num_of(p, b.take(num_len(p) as int))), b.skip(num_len(p) as int))) }
    } else { match p {
        PrimitiveType::Bool => if b.len() == 0 || b[0] > 1 { Err(derr(DErr::Codec(p, b))) } else { Ok((PT::Bool(b[0] == 1), b.skip(1))) },
        PrimitiveType::Char => if b.len() < 4 { Err(derr(DErr::Codec(PrimitiveType::U32, b))) } else if !is_char(from_le(b.take(4))) { Err(derr(DErr::InvalidChar(from_le(b.take(4))))) } else { Ok((PT::Char(to_char(from_le(b.take(4)))), b.skip(4))) },
        PrimitiveType::Str => match compact_read(b, 0xffff_ffff) {
            Err(e) => Err(e),
            Ok((n, rest)) => if n > rest.len() { Err(derr(DErr::NotEnough)) } else if !is_text(rest.take(n)) { Err(derr(DErr::InvalidStr(rest.take(n)))) } else { Ok((PT::Str(to_text(rest.take(n))), rest.skip(n))) },
        },
        // these are read only where nothing else follows
        PrimitiveType::U256 => if b.len() != 32 { Err(derr(DErr::NotEnough)) } else { Ok((PT::U256(b), Seq::empty())) },
        _ => if b.len() != 32 { Err(derr(DErr::NotEnough)) } else { Ok((PT::I256(b), Seq::empty())) },
    } }
}
// bits are read by scale_bits: how long they are, then what they are
#[verifier::external_body]
pub struct BitErr { k: u8 }
pub uninterp spec fn bits_size(b: Seq<u8>, s: BitsStoreFormat, o: BitsOrderFormat) -> Result<nat, BitErr>;
pub uninterp spec fn bits_content(b: Seq<u8>, s: BitsStoreFormat, o: BitsOrderFormat) -> Result<Seq<bool>, BitErr>;
pub open spec fn bits_read(b: Seq<u8>, s: BitsStoreFormat, o: BitsOrderFormat) -> Result<(Seq<bool>, Seq<u8>), DecodeError> {
    match bits_size(b, s, o) { Err(e) => Err(derr(DErr::Bits(e))), Ok(n) => if n > b.len() { Err(derr(DErr::NotEnough)) } else { match bits_content(b, s, o) { Err(e) => Err(derr(DErr::Bits(e))), Ok(x) => Ok((x, b.skip(n as int))) } } }
}

// ---- types
// every type is finite: going into a field or an item of a fixed number of them leads to a smaller type
pub open spec fn founded(reg: Registry) -> bool {
    &&& forall|id: TypeId| #[trigger] reg.rank(id) < reg.top()
    &&& forall|id: TypeId| (#[trigger] reg.shape(id)) is Ok ==> match reg.shape(id)->Ok_0 {
        Shape::Composite(fs) => all_below(reg, ids(fs), reg.rank(id)),
        Shape::Tuple(ts) => all_below(reg, ts, reg.rank(id)),
        Shape::Array(t, n) => 0 <= n <= usize::MAX && reg.rank(t) < reg.rank(id),
        Shape::Compact(t) => reg.rank(t) < reg.rank(id),
        _ => true,
    }
}
impl Registry { pub uninterp spec fn top(&self) -> nat; }
pub open spec fn all_below(reg: Registry, ts: Seq<TypeId>, d: nat) -> bool { forall|i: int| 0 <= i < ts.len() ==> reg.rank(#[trigger] ts[i]) < d }
pub open spec fn all_named(fs: Seq<SField>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).name is Some }
pub open spec fn named_fields(fs: Seq<SField>) -> bool { fs.len() > 0 && all_named(fs) }
pub open spec fn with_index(vs: Seq<SVariant>, i: u8) -> Option<SVariant> decreases vs.len() { if vs.len() == 0 { None } else if vs[0].index == i { Some(vs[0]) } else { with_index(vs.skip(1), i) } }
// the tracing decoder refuses lists beyond a limit; strict: bits have to be written as scale_bits writes them
pub struct Cfg { pub lim: Option<int>, pub strict: bool }
pub open spec fn plainly() -> Cfg { Cfg { lim: None, strict: false } }
pub open spec fn over(n: int, cfg: Cfg) -> bool { cfg.lim is Some && n > cfg.lim->Some_0 }
// named things if all fields have names (and there are any), else unnamed ones
pub open spec fn gather(fs: Seq<SField>, ts: Seq<Tree>) -> TComp { if named_fields(fs) { TComp::Named(Seq::new(ts.len(), |i: int| (fs[i].name->Some_0, ts[i]))) } else { TComp::Unnamed(ts) } }
pub open spec fn a_comp(r: ManyR, fs: Seq<SField>, id: TypeId) -> DecR { match r { Ok((ts, rest)) => Ok((Tree { def: TDef::Comp(gather(fs, ts)), id }, rest)), Err(e) => Err(e) } }
pub open spec fn a_list(r: ManyR, id: TypeId) -> DecR { match r { Ok((ts, rest)) => Ok((Tree { def: TDef::Comp(TComp::Unnamed(ts)), id }, rest)), Err(e) => Err(e) } }
pub open spec fn a_variant(r: ManyR, name: Seq<char>, fs: Seq<SField>, id: TypeId) -> DecR { match r { Ok((ts, rest)) => Ok((Tree { def: TDef::Var(name, gather(fs, ts)), id }, rest)), Err(e) => Err(e) } }

// what bytes decode to as a type; compact: as a compact number, or one below single-entry wrappers
pub open spec fn dec(reg: Registry, b: Seq<u8>, id: TypeId, cpt: bool, cfg: Cfg) -> DecR decreases b.len(), reg.rank(id), 2nat, 0nat {
    match reg.shape(id) {
        Err(e) => Err(derr(DErr::Resolving(e))),
        Ok(Shape::NotFound) => Err(derr(DErr::NotFound(id))),
        Ok(Shape::Composite(fs)) => if cpt && fs.len() != 1 { Err(derr(DErr::NotCompact)) } else { a_comp(dec_fields(reg, b, fs, cpt, cfg, reg.rank(id)), fs, id) },
        Ok(Shape::Variant(vs)) => if cpt { Err(derr(DErr::NotCompact)) } else if b.len() == 0 { Err(derr(DErr::NotEnough)) } else {
            match with_index(vs, b[0]) { None => Err(derr(DErr::NoVariant(b[0]))), Some(w) => a_variant(dec_fields(reg, b.skip(1), w.fields, false, cfg, reg.top()), w.name, w.fields, id) } },
        Ok(Shape::Sequence(t)) => if cpt { Err(derr(DErr::NotCompact)) } else {
            match compact_read(b, 0xffff_ffff_ffff_ffff) { Err(e) => Err(e), Ok((n, rest)) => if rest.len() < b.len() { a_list(dec_list(reg, rest, repeat(n as nat, t), false, cfg, reg.top()), id) } else { arbitrary() } } },
        Ok(Shape::Array(t, n)) => if cpt { Err(derr(DErr::NotCompact)) } else { a_list(dec_list(reg, b, repeat(n as nat, t), false, cfg, reg.rank(id)), id) },
        Ok(Shape::Tuple(ts)) => if cpt && ts.len() != 1 { Err(derr(DErr::NotCompact)) } else { a_list(dec_list(reg, b, ts, cpt, cfg, reg.rank(id)), id) },
        Ok(Shape::Primitive(p)) => match read_prim(b, p, cpt) { Ok((t, rest)) => Ok((Tree { def: TDef::Prim(t), id }, rest)), Err(e) => Err(e) },
        Ok(Shape::Compact(t)) => if reg.rank(t) < reg.rank(id) { dec(reg, b, t, true, cfg) } else { arbitrary() },
        Ok(Shape::BitSequence(s, o)) => if cpt { Err(derr(DErr::NotCompact)) } else { match bits_read(b, s, o) { Ok((x, rest)) => if cfg.strict && b != bits_bytes(x, s, o) + rest { Err(derr(DErr::NotCanonical)) } else { Ok((Tree { def: TDef::Bits(x), id }, rest)) }, Err(e) => Err(e) } },
    }
}
pub open spec fn dec_fields(reg: Registry, b: Seq<u8>, fs: Seq<SField>, cpt: bool, cfg: Cfg, d: nat) -> ManyR decreases b.len(), d, 1nat, fs.len() + 2 {
    if named_fields(fs) { dec_items(reg, b, ids(fs), cpt, cfg, d) } else { dec_list(reg, b, ids(fs), cpt, cfg, d) }
}
pub open spec fn dec_list(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat) -> ManyR decreases b.len(), d, 1nat, ts.len() + 1 {
    if over(ts.len() as int, cfg) { Err(derr(DErr::TooMany)) } else { dec_items(reg, b, ts, cpt, cfg, d) }
}
// one after the other
pub open spec fn dec_items(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat) -> ManyR decreases b.len(), d, 1nat, ts.len() {
    if ts.len() == 0 { Ok((Seq::empty(), b)) } else if reg.rank(ts[0]) >= d { arbitrary() } else {
        match dec(reg, b, ts[0], cpt, cfg) {
            Err(e) => Err(e),
            Ok((t, rest)) => if rest.len() > b.len() { arbitrary() } else { match dec_items(reg, rest, ts.skip(1), cpt, cfg, d) { Ok((us, after)) => Ok((seq![t] + us, after)), Err(e) => Err(e) } },
        }
    }
}
// what is still to come, after some items
pub open spec fn prepend(acc: Seq<Tree>, r: ManyR) -> ManyR { match r { Ok((ts, rest)) => Ok((acc + ts, rest)), Err(e) => Err(e) } }

// ---- what decoding consumes is the front of the bytes
pub open spec fn tail_of(rest: Seq<u8>, b: Seq<u8>) -> bool { rest.len() <= b.len() && rest =~= b.skip(b.len() - rest.len()) }
pub proof fn tails(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires tail_of(a, b), tail_of(b, c) ensures tail_of(a, c) { assert(a =~= c.skip(c.len() - a.len())); }
pub proof fn dec_tail(reg: Registry, b: Seq<u8>, id: TypeId, cpt: bool, cfg: Cfg)
    requires founded(reg) ensures dec(reg, b, id, cpt, cfg) is Ok ==> tail_of((dec(reg, b, id, cpt, cfg)->Ok_0).1, b) /*@ S09 */ decreases b.len(), reg.rank(id), 2nat, 0nat
{
    assert(b =~= b.skip(0));
    match reg.shape(id) {
        Ok(Shape::Composite(fs)) => { if !(cpt && fs.len() != 1) { fields_tail(reg, b, fs, cpt, cfg, reg.rank(id)); } }
        Ok(Shape::Variant(vs)) => { if !cpt && b.len() > 0 && with_index(vs, b[0]) is Some { let w = with_index(vs, b[0])->Some_0; assert(all_below(reg, ids(w.fields), reg.top())); fields_tail(reg, b.skip(1), w.fields, false, cfg, reg.top());
            assert(dec(reg, b, id, cpt, cfg) == a_variant(dec_fields(reg, b.skip(1), w.fields, false, cfg, reg.top()), w.name, w.fields, id));
            if dec(reg, b, id, cpt, cfg) is Ok { tails((dec(reg, b, id, cpt, cfg)->Ok_0).1, b.skip(1), b); } } }
        Ok(Shape::Sequence(t)) => { if !cpt && compact_read(b, 0xffff_ffff_ffff_ffff) is Ok { let (n, rest) = compact_read(b, 0xffff_ffff_ffff_ffff)->Ok_0; list_tail(reg, rest, repeat(n as nat, t), false, cfg, reg.top());
            assert(dec(reg, b, id, cpt, cfg) == a_list(dec_list(reg, rest, repeat(n as nat, t), false, cfg, reg.top()), id));
            if dec(reg, b, id, cpt, cfg) is Ok { tails((dec(reg, b, id, cpt, cfg)->Ok_0).1, rest, b); } } }
        Ok(Shape::Array(t, n)) => { if !cpt { list_tail(reg, b, repeat(n as nat, t), false, cfg, reg.rank(id)); } }
        Ok(Shape::Tuple(ts)) => { if !(cpt && ts.len() != 1) { list_tail(reg, b, ts, cpt, cfg, reg.rank(id)); } }
        Ok(Shape::Compact(t)) => { dec_tail(reg, b, t, true, cfg); }
        Ok(Shape::BitSequence(s, o)) => { }
        Ok(Shape::Primitive(p)) => { if p is Str && !cpt && compact_read(b, 0xffff_ffff) is Ok { let (n, rest) = compact_read(b, 0xffff_ffff)->Ok_0; if n <= rest.len() { tails(rest.skip(n), rest, b); } } }
        _ => {}
    }
}
pub proof fn fields_tail(reg: Registry, b: Seq<u8>, fs: Seq<SField>, cpt: bool, cfg: Cfg, d: nat)
    requires founded(reg), all_below(reg, ids(fs), d) ensures dec_fields(reg, b, fs, cpt, cfg, d) is Ok ==> tail_of((dec_fields(reg, b, fs, cpt, cfg, d)->Ok_0).1, b) decreases b.len(), d, 1nat, fs.len() + 2
{ items_tail(reg, b, ids(fs), cpt, cfg, d); list_tail(reg, b, ids(fs), cpt, cfg, d); }
pub proof fn list_tail(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat)
    requires founded(reg), all_below(reg, ts, d) ensures dec_list(reg, b, ts, cpt, cfg, d) is Ok ==> tail_of((dec_list(reg, b, ts, cpt, cfg, d)->Ok_0).1, b) decreases b.len(), d, 1nat, ts.len() + 1
{ items_tail(reg, b, ts, cpt, cfg, d); }
pub proof fn items_tail(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat)
    requires founded(reg), all_below(reg, ts, d) ensures dec_items(reg, b, ts, cpt, cfg, d) is Ok ==> tail_of((dec_items(reg, b, ts, cpt, cfg, d)->Ok_0).1, b), dec_items(reg, b, ts, cpt, cfg, d) is Ok ==> (dec_items(reg, b, ts, cpt, cfg, d)->Ok_0).0.len() == ts.len() decreases b.len(), d, 1nat, ts.len()
{
    assert(b =~= b.skip(0));
    if ts.len() > 0 {
        dec_tail(reg, b, ts[0], cpt, cfg);
        if dec(reg, b, ts[0], cpt, cfg) is Ok {
            let rest = (dec(reg, b, ts[0], cpt, cfg)->Ok_0).1;
            assert(all_below(reg, ts.skip(1), d)) by { assert forall|i: int| 0 <= i < ts.skip(1).len() implies reg.rank(#[trigger] ts.skip(1)[i]) < d by { assert(reg.rank(ts[i + 1]) < d); } }
            items_tail(reg, rest, ts.skip(1), cpt, cfg, d);
            if dec_items(reg, b, ts, cpt, cfg, d) is Ok { tails((dec_items(reg, b, ts, cpt, cfg, d)->Ok_0).1, rest, b); }
        }
    }
}
"""

PLACE = r"""
// ---- where decoding fails, and what was decoded before: the place from the root, outermost first
pub enum Seg { Field(Seq<char>), Index(int), Variant(Seq<char>) }
pub type Place = Option<(Seq<Seg>, Tree)>;
pub type CPlace = Option<(Seq<Seg>, TComp)>;
// what was decoded of some items until the failing one, and where in that one it failed, if it has places
pub struct Broke { pub before: Seq<Tree>, pub inner: Place }
pub open spec fn in_comp(p: CPlace, id: TypeId) -> Place { match p { Some((w, c)) => Some((w, Tree { def: TDef::Comp(c), id })), None => None } }
pub open spec fn in_variant(p: CPlace, name: Seq<char>, id: TypeId) -> Place { match p { Some((w, c)) => Some((seq![Seg::Variant(name)] + w, Tree { def: TDef::Var(name, c), id })), None => Some((seq![Seg::Variant(name)], Tree { def: TDef::Var(name, TComp::Unnamed(Seq::empty())), id })) } }
pub open spec fn in_item(s: Seg, p: Place) -> Seq<Seg> { match p { Some((w, _)) => seq![s] + w, None => seq![s] } }
pub open spec fn with_inner(before: Seq<Tree>, p: Place) -> Seq<Tree> { match p { Some((_, t)) => before.push(t), None => before } }
pub open spec fn in_list(b: Broke) -> CPlace { Some((in_item(Seg::Index(b.before.len() as int), b.inner), TComp::Unnamed(with_inner(b.before, b.inner)))) }
pub open spec fn name_of(fs: Seq<SField>, i: int) -> Seq<char> { fs[i].name->Some_0 }
pub open spec fn in_fields(b: Broke, fs: Seq<SField>) -> CPlace { let ts = with_inner(b.before, b.inner); Some((in_item(Seg::Field(name_of(fs, b.before.len() as int)), b.inner), TComp::Named(Seq::new(ts.len(), |i: int| (name_of(fs, i), ts[i]))))) }
pub open spec fn place(reg: Registry, b: Seq<u8>, id: TypeId, cpt: bool) -> Place decreases b.len(), reg.rank(id), 2nat, 0nat {
    match reg.shape(id) {
        Ok(Shape::Composite(fs)) => if cpt && fs.len() != 1 { None } else { in_comp(place_fields(reg, b, fs, cpt, reg.rank(id)), id) },
        Ok(Shape::Variant(vs)) => if cpt || b.len() == 0 { None } else { match with_index(vs, b[0]) { None => None, Some(w) => in_variant(place_fields(reg, b.skip(1), w.fields, false, reg.top()), w.name, id) } },
        Ok(Shape::Sequence(t)) => if cpt { None } else { match compact_read(b, 0xffff_ffff_ffff_ffff) { Err(e) => None, Ok((n, rest)) => if rest.len() < b.len() { in_comp(place_list(reg, rest, repeat(n as nat, t), false, reg.top()), id) } else { arbitrary() } } },
        Ok(Shape::Array(t, n)) => if cpt { None } else { in_comp(place_list(reg, b, repeat(n as nat, t), false, reg.rank(id)), id) },
        Ok(Shape::Tuple(ts)) => if cpt && ts.len() != 1 { None } else { in_comp(place_list(reg, b, ts, cpt, reg.rank(id)), id) },
        Ok(Shape::Compact(t)) => if reg.rank(t) < reg.rank(id) { place(reg, b, t, true) } else { arbitrary() },
        _ => None,
    }
}
pub open spec fn place_fields(reg: Registry, b: Seq<u8>, fs: Seq<SField>, cpt: bool, d: nat) -> CPlace decreases b.len(), d, 1nat, fs.len() + 2 {
    if named_fields(fs) { in_fields(broke(reg, b, ids(fs), cpt, d), fs) } else { place_list(reg, b, ids(fs), cpt, d) }
}
pub open spec fn place_list(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, d: nat) -> CPlace decreases b.len(), d, 1nat, ts.len() + 1 {
    if over(ts.len() as int, tr()) { None } else { in_list(broke(reg, b, ts, cpt, d)) }
}
pub open spec fn broke(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, d: nat) -> Broke decreases b.len(), d, 1nat, ts.len() {
    if ts.len() == 0 { Broke { before: Seq::empty(), inner: None } } else if reg.rank(ts[0]) >= d { arbitrary() } else {
        match dec(reg, b, ts[0], cpt, tr()) {
            Err(e) => Broke { before: Seq::empty(), inner: place(reg, b, ts[0], cpt) },
            Ok((t, rest)) => if rest.len() > b.len() { arbitrary() } else { onto(seq![t], broke(reg, rest, ts.skip(1), cpt, d)) },
        }
    }
}
pub open spec fn onto(acc: Seq<Tree>, b: Broke) -> Broke { Broke { before: acc + b.before, inner: b.inner } }
"""

# ---- the contracts between scale_decode's dispatcher and its visitors: u_dispatch proves the dispatcher's side for
# any visitor, u_decode and u_trace the visitors' side
def fill(s, **kw):
    for k, v in kw.items():
        s = s.replace("{" + k + "}", v)
    return s


class Says:
    def __init__(self, cfg, y, f, only=""):
        self.cfg, self.y, self.f, self.only = cfg, y, f, only  # only: a condition in front of what is said about results

    def ok(self, x, t):
        return fill(self.y, x=x, t=t)

    def err(self, x, e, p, v="visitor"):
        return fill(self.f, x=x, e=e, p=p, v=v)

    def gives(self, d, kind, p="None", v="self"):
        after = {"list": " && final(value).bytes() == rest", "composite": " && final(value).bytes() == rest", "variant": " && final(value).items().bytes() == rest"}.get(kind, "")
        return f"{self.only}match {d.replace('{cfg}', self.cfg)} {{ Ok((t, rest)) => r is Ok && {self.ok('r->Ok_0', 't')}{after}, Err(e) => r is Err && {self.err('r->Err_0', 'e', p, v)} }}"

    def prim(self, val):
        return f"{self.only}(r is Ok && {self.ok('r->Ok_0', 'Tree { def: TDef::Prim(' + val + '), id: type_id }')})"

    def visit(self, kind):
        req, d, p, more = VISITS[kind]()
        return f"requires {req} ensures {self.gives(d, kind, p)}, {more if not self.only else weaker(more, self.only)}"

    def decode_item(self):
        o = "old(self)"
        head = f"{o}.reg(), {o}.bytes(), {o}.left()[0].id, {o}.cpt()"
        return f"""requires old(self).ok()
        ensures final(self).same(old(self)), final(self).ok(),
            old(self).left().len() == 0 ==> r is None && *final(self) == *old(self),
            old(self).left().len() > 0 ==> r is Some && ({self.only}match dec({head}, {self.cfg}) {{
                Ok((t, rest)) => r->Some_0 is Ok && {self.ok('r->Some_0->Ok_0', 't')} && final(self).bytes() == rest && final(self).left() == old(self).left().skip(1),
                Err(e) => r->Some_0 is Err && {self.err('r->Some_0->Err_0', 'e', f'place({head})')} && (old(self).in_type() ==> final(self).left().len() == 0),
            }})"""

    def decode_with_visitor(self, cpt):
        head = f"*types, old(data)@, ty_id, {cpt}"
        return f"""requires founded(*types)
        ensures {self.only}match dec({head}, {self.cfg}) {{ Ok((t, rest)) => r is Ok && {self.ok('r->Ok_0', 't')} && final(data)@ == rest, Err(e) => r is Err && {self.err('r->Err_0', 'e', f'place({head})')} }}"""


def weaker(more, only):
    """what is said about a result that is there only under a condition"""
    return re.sub(r"r is Ok ==> ", f"{only.replace('==>', '').strip()} && r is Ok ==> ", more)


def _fields(i):
    return f"dec_fields({i}.reg(), {i}.bytes(), {i}.all(), {i}.cpt(), {{cfg}}, {i}.below())", f"place_fields({i}.reg(), {i}.bytes(), {i}.all(), {i}.cpt(), {i}.below())"


def _list():
    i = "old(value)"
    return ("old(value).fresh()", f"a_list(dec_list({i}.reg(), {i}.bytes(), ids({i}.all()), {i}.cpt(), {{cfg}}, {i}.below()), type_id)",
            f"in_comp(place_list({i}.reg(), {i}.bytes(), ids({i}.all()), {i}.cpt(), {i}.below()), type_id)", "final(value).same(old(value)), final(value).ok(), r is Ok ==> final(value).left().len() == 0")


def _composite():
    d, p = _fields("old(value)")
    return "old(value).fresh(), old(value).in_type()", f"a_comp({d}, old(value).all(), type_id)", f"in_comp({p}, type_id)", "final(value).same(old(value)), final(value).ok(), r is Ok ==> final(value).left().len() == 0"


def _variant():
    i = "old(value).items()"
    d, p = _fields(i)
    return f"{i}.fresh(), {i}.in_type()", f"a_variant({d}, old(value).vname(), {i}.all(), type_id)", f"in_variant({p}, old(value).vname(), type_id)", f"final(value).items().same(&{i}), final(value).items().ok(), r is Ok ==> final(value).items().left().len() == 0"


def _bits():
    return "true", "(match old(value).read() { Ok((x, after)) => Ok((Tree { def: TDef::Bits(x), id: type_id }, after)), Err(e) => Err(e) })", "None", "final(value).same(old(value))"


def _str():
    return "true", "(match old(value).read() { Ok(x) => Ok((Tree { def: TDef::Prim(PT::Str(x)), id: type_id }, Seq::<u8>::empty())), Err(e) => Err(e) })", "None", "true"


VISITS = dict(list=_list, composite=_composite, variant=_variant, bits=_bits, str=_str)

# scale_decode's objects that a visitor is handed
ITEMS = r"""
// fields or items still to be decoded, one after the other, from some bytes
#[verifier::external_body]
pub struct Items<'a> { v: Vec<Field<'a>> }
impl<'a> Items<'a> {
    pub uninterp spec fn reg(&self) -> Registry;
    pub uninterp spec fn all(&self) -> Seq<SField>;
    pub uninterp spec fn left(&self) -> Seq<SField>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn cpt(&self) -> bool;
    // what ranks are below: the type that these are the items of
    pub uninterp spec fn below(&self) -> nat;
    // is it a struct, tuple or variant: are all fields in memory, as part of the type
    pub uninterp spec fn in_type(&self) -> bool;
    pub open spec fn ok(&self) -> bool { founded(self.reg()) && all_below(self.reg(), ids(self.left()), self.below()) && self.left().len() <= self.all().len() && self.left() == self.all().skip(self.all().len() - self.left().len()) && self.all().len() <= usize::MAX }
    pub open spec fn fresh(&self) -> bool { self.ok() && self.left() == self.all() }
    pub open spec fn same(&self, o: &Self) -> bool { self.reg() == o.reg() && self.all() == o.all() && self.cpt() == o.cpt() && self.below() == o.below() && self.in_type() == o.in_type() }
    pub open spec fn rest(&self, cfg: Cfg) -> ManyR { dec_items(self.reg(), self.bytes(), ids(self.left()), self.cpt(), cfg, self.below()) }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) requires self.fresh() ensures r == self.left().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn has_unnamed_fields(&self) -> (r: bool) ensures r == !all_named(self.all()) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_name(&self) -> (r: Option<&'a str>) ensures self.left().len() == 0 ==> r is None, self.left().len() > 0 ==> match self.left()[0].name { Some(n) => r is Some && r->Some_0@ == n, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_from_undecoded(&self) -> (r: &'a [u8]) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_decoding(&mut self) -> (r: Result<(), DecodeError>) requires old(self).ok() ensures final(self).same(old(self)), old(self).left().len() == 0 ==> r is Ok && final(self).bytes() == old(self).bytes() && final(self).left() == old(self).left() { unimplemented!() }
    // Composite::new
    #[verifier::external_body]
    pub fn new(path: (), bytes: &'a [u8], fields: &mut FieldIter<'a>, types: &'a Registry, is_compact: bool) -> (r: Items<'a>) requires founded(*types), old(fields).left().len() <= usize::MAX
        ensures r.reg() == *types, r.bytes() == bytes@, r.all() == old(fields).left(), r.left() == r.all(), r.cpt() == is_compact, r.below() == types.top(), r.in_type(), r.ok() { unimplemented!() }
    pub proof fn unfold(&self, cfg: Cfg) requires self.ok(), self.left().len() > 0
        ensures ids(self.left())[0] == self.left()[0].id, ids(self.left()).skip(1) == ids(self.left().skip(1)), self.left().skip(1) == self.all().skip(self.all().len() - self.left().len() + 1), self.left()[0] == self.all()[self.all().len() - self.left().len()], self.reg().rank(self.left()[0].id) < self.below(),
            dec(self.reg(), self.bytes(), self.left()[0].id, self.cpt(), cfg) is Ok ==> (dec(self.reg(), self.bytes(), self.left()[0].id, self.cpt(), cfg)->Ok_0).1.len() <= self.bytes().len(),
            all_below(self.reg(), ids(self.left().skip(1)), self.below())
    { let l = self.left(); assert(ids(l)[0] == l[0].id); assert(ids(l).skip(1) =~= ids(l.skip(1))); assert(l.skip(1) =~= self.all().skip(self.all().len() - l.len() + 1)); dec_tail(self.reg(), self.bytes(), l[0].id, self.cpt(), cfg);
      assert forall|i: int| 0 <= i < ids(l.skip(1)).len() implies self.reg().rank(#[trigger] ids(l.skip(1))[i]) < self.below() by { assert(ids(l.skip(1))[i] == ids(l)[i + 1]); } }
}
#[verifier::external_body]
pub struct VariantItems<'a> { name: &'a str, items: Items<'a> }
impl<'a> VariantItems<'a> {
    pub uninterp spec fn vname(&self) -> Seq<char>;
    pub uninterp spec fn items(&self) -> Items<'a>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &'a str) ensures r@ == self.vname() { unimplemented!() }
    #[verifier::external_body]
    pub fn fields(&mut self) -> (r: &mut Items<'a>) ensures *r == old(self).items(), final(self).items() == *final(r), final(self).vname() == old(self).vname() { unimplemented!() }
}
#[verifier::external_body]
pub struct BitItems<'a> { b: &'a [u8] }
#[verifier::external_body]
pub struct BitDecoder<'a> { b: &'a [u8] }
impl<'a> BitDecoder<'a> {
    pub uninterp spec fn out(&self) -> Result<Seq<bool>, BitErr>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Result<BitSequence, BitErr>) ensures match self.out() { Ok(x) => r is Ok && r->Ok_0.bits() == x, Err(e) => r is Err && r->Err_0 == e } { unimplemented!() }
}
impl<'a> BitItems<'a> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn store(&self) -> BitsStoreFormat;
    pub uninterp spec fn order(&self) -> BitsOrderFormat;
    pub open spec fn same(&self, o: &Self) -> bool { self.bytes() == o.bytes() && self.store() == o.store() && self.order() == o.order() }
    pub open spec fn read(&self) -> Result<(Seq<bool>, Seq<u8>), DecodeError> { bits_read(self.bytes(), self.store(), self.order()) }
    #[verifier::external_body]
    pub fn decode(&mut self) -> (r: Result<BitDecoder<'a>, DecodeError>) ensures final(self).same(old(self)), match r { Ok(d) => match d.out() { Ok(x) => old(self).read() is Ok && x == (old(self).read()->Ok_0).0, Err(e) => old(self).read() == Err::<(Seq<bool>, Seq<u8>), DecodeError>(derr(DErr::Bits(e))) }, Err(e) => old(self).read() == Err::<(Seq<bool>, Seq<u8>), DecodeError>(e) } { unimplemented!() }
}
#[verifier::external_body]
pub struct StrItem<'a> { b: &'a [u8] }
impl<'a> StrItem<'a> {
    pub uninterp spec fn read(&self) -> Result<Seq<char>, DecodeError>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Result<&'a str, DecodeError>) ensures match self.read() { Ok(s) => r is Ok && r->Ok_0@ == s, Err(e) => r is Err && r->Err_0 == e } { unimplemented!() }
}
// space reserved up front: a fixed amount at most, or no more than the number of fields of a type
#[verifier::external_body]
pub fn with_capacity_at_most<X>(n: usize, of_type: Ghost<Option<nat>>) -> (r: Vec<X>) requires n <= 1024 || of_type@ is Some && n <= of_type@->Some_0 /*@ S09 */ ensures r@.len() == 0 { Vec::with_capacity(n) }
"""


def expand_macro(src, f, name, limit=6):
    """replace uses of a one-armed macro_rules macro with its text (fragments substituted)"""
    m = src.find_item("macro_rules", name)
    toks = lex(m)
    # macro_rules ! name { (matcher) => { body } ; }
    o = next(i for i, t in enumerate(toks) if t.s == "{")
    e = match_close(toks, o)
    i = o + 1
    mc = match_close(toks, i)
    if toks[mc + 1].s != "=>":
        raise LostAnchor(f"macro {name} has another shape")
    bo = mc + 2
    bc = match_close(toks, bo)
    if [t.s for t in toks[bc + 1 : e] if t.s != ";"]:
        raise LostAnchor(f"macro {name} has more than one arm")
    params = [toks[k + 1].s for k in range(i, mc) if toks[k].s == "$"]
    if any(toks[k].s == "$" and toks[k + 1].s == "(" for k in range(i, bc)):
        raise LostAnchor(f"macro {name} repeats things")
    body = m[toks[bo].b : toks[bc].a].strip()
    for _ in range(limit):
        ts = lex(f.body)
        at = next((k for k, t in enumerate(ts) if t.s == name and ts[k + 1].s == "!"), None)
        if at is None:
            return f
        c = match_close(ts, at + 2)
        from units.lib_scale import split_commas
        args = [f.body[a:b].strip() for a, b in split_commas(f.body, ts[at + 2].b, ts[c].a)]
        if len(args) != len(params):
            raise LostAnchor(f"macro {name} is used with other arguments")
        env = dict(zip(params, args))
        text = re.sub(r"\$(\w+)", lambda mm: env.get(mm.group(1), mm.group(0)), body)
        f.body = f.body[: ts[at].a] + text + f.body[ts[c].b :]
        f.applied.append(f"{name}! written out")
    raise LostAnchor(f"macro {name} is used too often")
