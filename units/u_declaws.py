"""Laws of the decoding that the decoders are proved to implement, and of decoding and encoding together (S01, S03, S04, S05, S11)."""
from units import lib_value, lib_scale, lib_encode, lib_decode, u_enclaws
PROPS = ["S01", "S03", "S04", "S05", "S11"]
RLIMIT = 100

BASICS = r"""
pub open spec fn kind(reg: Registry, id: TypeId, s: Shape) -> bool { reg.shape(id) == Ok::<Shape, ResolveError>(s) }
proof fn from_le_bound(b: Seq<u8>) ensures 0 <= from_le(b) < pow256(b.len()) decreases b.len()
{ if b.len() > 0 { from_le_bound(b.skip(1)); assert(from_le(b) < pow256(b.len())) by (nonlinear_arith) requires from_le(b) == b[0] as int + 256 * from_le(b.skip(1)), from_le(b.skip(1)) < pow256((b.len() - 1) as nat), pow256(b.len()) == 256 * pow256((b.len() - 1) as nat), b[0] as int <= 255; } }
// bytes are determined by what they stand for
proof fn le_from(b: Seq<u8>) ensures le(from_le(b), b.len()) == b decreases b.len()
{
    if b.len() == 0 { assert(le(from_le(b), 0) =~= b); } else {
        let t = b.skip(1);
        le_from(t); from_le_bound(t);
        let x = b[0] as int; let y = from_le(t);
        assert((x + 256 * y) % 256 == x && (x + 256 * y) / 256 == y) by (nonlinear_arith) requires 0 <= x < 256, y >= 0;
        assert(seq![b[0]] + t =~= b);
    }
}
proof fn split(b: Seq<u8>, k: int) requires 0 <= k <= b.len() ensures b == b.take(k) + b.skip(k) { assert(b =~= b.take(k) + b.skip(k)); }
proof fn front(a: Seq<u8>, r: Seq<u8>) ensures (a + r).take(a.len() as int) == a, (a + r).skip(a.len() as int) == r, a.len() > 0 ==> (a + r)[0] == a[0] { assert((a + r).take(a.len() as int) =~= a); assert((a + r).skip(a.len() as int) =~= r); }
// a number type's bytes and the number
proof fn num_both_ways(p: PrimitiveType, b: Seq<u8>) requires num_len(p) > 0, b.len() == num_len(p)
    ensures num_range(p, num_of(p, b)), num_bytes(p, num_of(p, b)) == b
{ powers(); from_le_bound(b); le_from(b); }
proof fn num_there(p: PrimitiveType, n: int) requires num_range(p, n) ensures num_bytes(p, n).len() == num_len(p), num_of(p, num_bytes(p, n)) == n, num_len(p) > 0
{ half(p, n); le_inverse(if n >= 0 { n } else { n + pow256(num_len(p)) }, num_len(p)); }
// a compact number is read back
proof fn compact_there(n: int, r: Seq<u8>, max: int) requires 0 <= n <= max, n <= u128::MAX ensures compact_read(compact(n) + r, max) == Ok::<(int, Seq<u8>), DecodeError>((n, r))
{ compact_exact(n); front(compact(n), r); assert(compact(n).len() > 0); assert(compact_len(compact(n) + r) == compact_len(compact(n))); }
proof fn compact_back(b: Seq<u8>, max: int) requires compact_read(b, max) is Ok ensures ({ let (n, r) = compact_read(b, max)->Ok_0; b == compact(n) + r && 0 <= n <= max && r.len() < b.len() })
{ split(b, compact_len(b)); }

// ---- S01: primitives.  For every number of the type, and whatever follows
proof fn decode_number(reg: Registry, id: TypeId, p: PrimitiveType, n: int, r: Seq<u8>, cfg: Cfg)
    requires kind(reg, id, Shape::Primitive(p)), num_range(p, n)
    ensures ({ let d = dec(reg, num_bytes(p, n) + r, id, false, cfg); d is Ok && (d->Ok_0).1 == r && (d->Ok_0).0.id == id && (d->Ok_0).0.def == TDef::Prim(if num_unsigned(p) { PT::U128(n as u128) } else { PT::I128(n as i128) }) }), /*@ S01 */
        num_range(p, n) ==> (num_unsigned(p) ==> (n as u128) as int == n) && (num_signed(p) ==> (n as i128) as int == n), /*@ S01 */
{ num_there(p, n); front(num_bytes(p, n), r); }
proof fn decode_compact_number(reg: Registry, id: TypeId, c: TypeId, p: PrimitiveType, n: int, r: Seq<u8>, cfg: Cfg)
    requires kind(reg, id, Shape::Compact(c)), reg.rank(c) < reg.rank(id), kind(reg, c, Shape::Primitive(p)), num_unsigned(p), num_range(p, n)
    ensures dec(reg, compact(n) + r, id, false, cfg) == Ok::<(Tree, Seq<u8>), DecodeError>((Tree { def: TDef::Prim(PT::U128(n as u128)), id: c }, r)), /*@ S01 */
{ powers(); compact_there(n, r, pow256(num_len(p)) - 1); assert(dec(reg, compact(n) + r, c, true, cfg) == Ok::<(Tree, Seq<u8>), DecodeError>((Tree { def: TDef::Prim(PT::U128(n as u128)), id: c }, r))); }
proof fn decode_others(reg: Registry, id: TypeId, p: PrimitiveType, b: Seq<u8>, cfg: Cfg)
    requires kind(reg, id, Shape::Primitive(p))
    ensures
        num_len(p) > 0 && b.len() < num_len(p) ==> dec(reg, b, id, false, cfg) is Err, /*@ S01 */
        p is Bool ==> (b.len() == 0 || b[0] > 1 ==> dec(reg, b, id, false, cfg) is Err) && (b.len() > 0 && b[0] <= 1 ==> dec(reg, b, id, false, cfg) == Ok::<(Tree, Seq<u8>), DecodeError>((Tree { def: TDef::Prim(PT::Bool(b[0] == 1)), id }, b.skip(1)))), /*@ S01 */
        p is Char && b.len() < 4 ==> dec(reg, b, id, false, cfg) is Err, /*@ S01 */
        p is Char && b.len() >= 4 && !is_char(from_le(b.take(4))) ==> dec(reg, b, id, false, cfg) is Err, /*@ S01 */
        p is U256 || p is I256 ==> (b.len() == 32 ==> dec(reg, b, id, false, cfg) == Ok::<(Tree, Seq<u8>), DecodeError>((Tree { def: TDef::Prim(if p is U256 { PT::U256(b) } else { PT::I256(b) }), id }, Seq::empty()))), /*@ S01 */
{ }
proof fn decode_char(reg: Registry, id: TypeId, c: char, r: Seq<u8>, cfg: Cfg)
    requires kind(reg, id, Shape::Primitive(PrimitiveType::Char))
    ensures dec(reg, le(c as int, 4) + r, id, false, cfg) == Ok::<(Tree, Seq<u8>), DecodeError>((Tree { def: TDef::Prim(PT::Char(c)), id }, r)), /*@ S01 */
{ powers(); le_inverse(c as int, 4); front(le(c as int, 4), r); assert(code(c) == c as int); char_codes(c, to_char(c as int)); }
proof fn char_codes(a: char, b: char) requires code(a) == code(b) ensures a == b { assert(a as u32 == b as u32); }

// ---- S03: each item is decoded from where the one before it ended
pub open spec fn after(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, k: nat) -> Seq<u8> decreases k { if k == 0 { b } else { (dec(reg, after(reg, b, ts, cpt, cfg, (k - 1) as nat), ts[k - 1], cpt, cfg)->Ok_0).1 } }
proof fn after_first(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, k: nat)
    requires k < ts.len() ensures after(reg, b, ts, cpt, cfg, k + 1) == after(reg, (dec(reg, b, ts[0], cpt, cfg)->Ok_0).1, ts.skip(1), cpt, cfg, k) decreases k
{ if k > 0 { after_first(reg, b, ts, cpt, cfg, (k - 1) as nat); } else { assert(after(reg, b, ts, cpt, cfg, 0) == b); } }
// the type id that a decoded value carries: below compact, that of the type inside
pub open spec fn carried(reg: Registry, id: TypeId) -> TypeId decreases reg.rank(id) { match reg.shape(id) { Ok(Shape::Compact(t)) => if reg.rank(t) < reg.rank(id) { carried(reg, t) } else { id }, _ => id } }
proof fn decoded_id(reg: Registry, b: Seq<u8>, id: TypeId, cpt: bool, cfg: Cfg) requires founded(reg) ensures dec(reg, b, id, cpt, cfg) is Ok ==> (dec(reg, b, id, cpt, cfg)->Ok_0).0.id == carried(reg, id) /*@ S01 S03 */ decreases reg.rank(id)
{ match reg.shape(id) { Ok(Shape::Compact(t)) => { decoded_id(reg, b, t, true, cfg); } Ok(Shape::Sequence(t)) => { if compact_read(b, 0xffff_ffff_ffff_ffff) is Ok { compact_back(b, 0xffff_ffff_ffff_ffff); } } _ => { } } }
proof fn items_in_order(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat)
    requires founded(reg), all_below(reg, ts, d), dec_items(reg, b, ts, cpt, cfg, d) is Ok
    ensures ({ let (us, rest) = dec_items(reg, b, ts, cpt, cfg, d)->Ok_0; us.len() == ts.len() && rest == after(reg, b, ts, cpt, cfg, ts.len()) && forall|k: int| 0 <= k < ts.len() ==> item_at(reg, b, ts, cpt, cfg, k, #[trigger] us[k]) }), /*@ S03 */
    decreases ts.len()
{
    if ts.len() > 0 {
        dec_tail(reg, b, ts[0], cpt, cfg);
        decoded_id(reg, b, ts[0], cpt, cfg);
        let (t0, b1) = dec(reg, b, ts[0], cpt, cfg)->Ok_0;
        let tt = ts.skip(1);
        assert(all_below(reg, tt, d)) by { assert forall|i: int| 0 <= i < tt.len() implies reg.rank(#[trigger] tt[i]) < d by { assert(reg.rank(ts[i + 1]) < d); } }
        items_in_order(reg, b1, tt, cpt, cfg, d);
        let (us, rest) = dec_items(reg, b, ts, cpt, cfg, d)->Ok_0;
        let (vs, _) = dec_items(reg, b1, tt, cpt, cfg, d)->Ok_0;
        assert(us == seq![t0] + vs);
        after_first(reg, b, ts, cpt, cfg, (ts.len() - 1) as nat);
        assert forall|k: int| 0 <= k < ts.len() implies item_at(reg, b, ts, cpt, cfg, k, #[trigger] us[k]) by {
            if k == 0 { assert(us[0] == t0); assert(after(reg, b, ts, cpt, cfg, 0) == b); } else { after_first(reg, b, ts, cpt, cfg, (k - 1) as nat); assert(us[k] == vs[k - 1]); assert(item_at(reg, b1, tt, cpt, cfg, k - 1, vs[k - 1])); assert(tt[k - 1] == ts[k]); }
        }
    }
}
pub open spec fn item_at(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, k: int, t: Tree) -> bool { dec(reg, after(reg, b, ts, cpt, cfg, k as nat), ts[k], cpt, cfg) == Ok::<(Tree, Seq<u8>), DecodeError>((t, after(reg, b, ts, cpt, cfg, k as nat + 1))) && t.id == carried(reg, ts[k]) }
// shapes and names
proof fn names_from_type<C>(c: Composite<C>, fs: Seq<SField>, ts: Seq<Tree>, f: spec_fn(TypeId) -> C)
    requires ts.len() == fs.len(), denotes_comp(c, gather(fs, ts), f)
    ensures named_fields(fs) ==> c is Named && c->Named_0@.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> (#[trigger] c->Named_0@[i]).0@ == fs[i].name->Some_0 && denotes(c->Named_0@[i].1, ts[i], f), /*@ S03 */
        !named_fields(fs) ==> c is Unnamed && c->Unnamed_0@.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> denotes(#[trigger] c->Unnamed_0@[i], ts[i], f), /*@ S03 */
{ if named_fields(fs) { assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] c->Named_0@[i]).0@ == fs[i].name->Some_0 && denotes(c->Named_0@[i].1, ts[i], f) by { assert(denotes_item(c->Named_0@[i], gather(fs, ts)->Named_0[i], f)); } } }
proof fn variant_by_index(reg: Registry, b: Seq<u8>, id: TypeId, vs: Seq<SVariant>, cfg: Cfg)
    requires kind(reg, id, Shape::Variant(vs)), dec(reg, b, id, false, cfg) is Ok
    ensures b.len() > 0 && with_index(vs, b[0]) is Some && with_index(vs, b[0])->Some_0.index == b[0] && vs.contains(with_index(vs, b[0])->Some_0), (dec(reg, b, id, false, cfg)->Ok_0).0.def is Var && (dec(reg, b, id, false, cfg)->Ok_0).0.def->Var_0 == with_index(vs, b[0])->Some_0.name, /*@ S03 */
{ index_in(vs, b[0]); }
proof fn index_in(vs: Seq<SVariant>, i: u8) ensures with_index(vs, i) is Some ==> with_index(vs, i)->Some_0.index == i && vs.contains(with_index(vs, i)->Some_0) decreases vs.len()
{ if vs.len() > 0 { if vs[0].index == i { assert(vs.contains(vs[0])); } else { index_in(vs.skip(1), i); if with_index(vs.skip(1), i) is Some { let w = with_index(vs.skip(1), i)->Some_0; let k = choose|k: int| 0 <= k < vs.skip(1).len() && vs.skip(1)[k] == w; assert(vs[k + 1] == w); } } } }

// ---- S11: the bound on ranks is about termination only
proof fn bound_free(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat, e: nat)
    requires founded(reg), all_below(reg, ts, d), all_below(reg, ts, e) ensures dec_items(reg, b, ts, cpt, cfg, d) == dec_items(reg, b, ts, cpt, cfg, e) decreases ts.len()
{
    if ts.len() > 0 {
        dec_tail(reg, b, ts[0], cpt, cfg);
        assert(reg.rank(ts[0]) < d && reg.rank(ts[0]) < e);
        if dec(reg, b, ts[0], cpt, cfg) is Ok {
            let tt = ts.skip(1);
            assert forall|i: int| 0 <= i < tt.len() implies reg.rank(#[trigger] tt[i]) < d && reg.rank(tt[i]) < e by { assert(reg.rank(ts[i + 1]) < d && reg.rank(ts[i + 1]) < e); }
            bound_free(reg, (dec(reg, b, ts[0], cpt, cfg)->Ok_0).1, tt, cpt, cfg, d, e);
        }
    }
}
proof fn fields_like_struct_type(reg: Registry, b: Seq<u8>, id: TypeId, fs: Seq<SField>)
    requires founded(reg), kind(reg, id, Shape::Composite(fs))
    ensures dec(reg, b, id, false, plainly()) == a_comp(dec_fields(reg, b, fs, false, plainly(), reg.top()), fs, id), /*@ S11 */
{ assert(all_below(reg, ids(fs), reg.rank(id))); assert(reg.rank(id) < reg.top()); bound_free(reg, b, ids(fs), false, plainly(), reg.rank(id), reg.top());
  assert(dec_fields(reg, b, fs, false, plainly(), reg.rank(id)) == dec_items(reg, b, ids(fs), false, plainly(), reg.rank(id)));
  assert(dec_fields(reg, b, fs, false, plainly(), reg.top()) == dec_items(reg, b, ids(fs), false, plainly(), reg.top())); }

// ---- S04: the settings of a decoder only make it refuse
pub open spec fn refused(e: DecodeError) -> bool { e == derr(DErr::TooMany) || e == derr(DErr::NotCanonical) }
proof fn settings(reg: Registry, b: Seq<u8>, id: TypeId, cpt: bool, cfg: Cfg) requires founded(reg)
    ensures dec(reg, b, id, cpt, cfg) == dec(reg, b, id, cpt, plainly()) || dec(reg, b, id, cpt, cfg) is Err && refused(dec(reg, b, id, cpt, cfg)->Err_0), /*@ S04 */
    decreases b.len(), reg.rank(id), 2nat, 0nat
{
    match reg.shape(id) {
        Ok(Shape::Composite(fs)) => { if !(cpt && fs.len() != 1) { settings_fields(reg, b, fs, cpt, cfg, reg.rank(id)); } }
        Ok(Shape::Variant(vs)) => { if !cpt && b.len() > 0 && with_index(vs, b[0]) is Some { let w = with_index(vs, b[0])->Some_0; assert(all_below(reg, ids(w.fields), reg.top())); settings_fields(reg, b.skip(1), w.fields, false, cfg, reg.top());
            assert(dec(reg, b, id, cpt, cfg) == a_variant(dec_fields(reg, b.skip(1), w.fields, false, cfg, reg.top()), w.name, w.fields, id));
            assert(dec(reg, b, id, cpt, plainly()) == a_variant(dec_fields(reg, b.skip(1), w.fields, false, plainly(), reg.top()), w.name, w.fields, id)); } }
        Ok(Shape::Sequence(t)) => { if !cpt && compact_read(b, 0xffff_ffff_ffff_ffff) is Ok { compact_back(b, 0xffff_ffff_ffff_ffff); let (n, rest) = compact_read(b, 0xffff_ffff_ffff_ffff)->Ok_0; settings_list(reg, rest, repeat(n as nat, t), false, cfg, reg.top());
            assert(dec(reg, b, id, cpt, cfg) == a_list(dec_list(reg, rest, repeat(n as nat, t), false, cfg, reg.top()), id));
            assert(dec(reg, b, id, cpt, plainly()) == a_list(dec_list(reg, rest, repeat(n as nat, t), false, plainly(), reg.top()), id)); } }
        Ok(Shape::Array(t, n)) => { if !cpt { settings_list(reg, b, repeat(n as nat, t), false, cfg, reg.rank(id)); } }
        Ok(Shape::Tuple(ts)) => { if !(cpt && ts.len() != 1) { settings_list(reg, b, ts, cpt, cfg, reg.rank(id)); } }
        Ok(Shape::Compact(t)) => { settings(reg, b, t, true, cfg); }
        _ => {}
    }
}
pub open spec fn like(a: ManyR, p: ManyR) -> bool { a == p || a is Err && refused(a->Err_0) }
proof fn settings_fields(reg: Registry, b: Seq<u8>, fs: Seq<SField>, cpt: bool, cfg: Cfg, d: nat) requires founded(reg), all_below(reg, ids(fs), d)
    ensures like(dec_fields(reg, b, fs, cpt, cfg, d), dec_fields(reg, b, fs, cpt, plainly(), d)) decreases b.len(), d, 1nat, fs.len() + 2
{ settings_items(reg, b, ids(fs), cpt, cfg, d); settings_list(reg, b, ids(fs), cpt, cfg, d); }
proof fn settings_list(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat) requires founded(reg), all_below(reg, ts, d)
    ensures like(dec_list(reg, b, ts, cpt, cfg, d), dec_list(reg, b, ts, cpt, plainly(), d)) decreases b.len(), d, 1nat, ts.len() + 1
{ settings_items(reg, b, ts, cpt, cfg, d); }
proof fn settings_items(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat) requires founded(reg), all_below(reg, ts, d)
    ensures like(dec_items(reg, b, ts, cpt, cfg, d), dec_items(reg, b, ts, cpt, plainly(), d)) decreases b.len(), d, 1nat, ts.len()
{
    if ts.len() > 0 {
        settings(reg, b, ts[0], cpt, cfg); dec_tail(reg, b, ts[0], cpt, cfg); dec_tail(reg, b, ts[0], cpt, plainly());
        if dec(reg, b, ts[0], cpt, cfg) is Ok {
            let rest = (dec(reg, b, ts[0], cpt, cfg)->Ok_0).1; let tt = ts.skip(1);
            assert forall|i: int| 0 <= i < tt.len() implies reg.rank(#[trigger] tt[i]) < d by { assert(reg.rank(ts[i + 1]) < d); }
            settings_items(reg, rest, tt, cpt, cfg, d);
        }
    }
}
"""

BACK = r"""
// ---- S05: what is decoded encodes back to the same bytes
pub open spec fn canon() -> Cfg { Cfg { lim: Some(0xffff_ffff), strict: true } }
pub open spec fn distinct_fields(fs: Seq<SField>) -> bool { forall|i: int, j: int| 0 <= i < j < fs.len() && (#[trigger] fs[i]).name is Some && (#[trigger] fs[j]).name is Some ==> fs[i].name != fs[j].name }
pub open spec fn distinct_variants(vs: Seq<SVariant>) -> bool { forall|i: int, j: int| 0 <= i < j < vs.len() ==> (#[trigger] vs[i]).name != (#[trigger] vs[j]).name }
pub open spec fn all_in(ts: Seq<TypeId>, s: spec_fn(TypeId) -> bool) -> bool { forall|i: int| 0 <= i < ts.len() ==> s(#[trigger] ts[i]) }
pub open spec fn is_compact(reg: Registry, id: TypeId) -> bool { reg.shape(id) is Ok && reg.shape(id)->Ok_0 is Compact }
// types of a set that lead to types of the set only: no 256-bit numbers, no two fields or variants of one name, no compact compacts
pub open spec fn good_shape(reg: Registry, h: Shape, s: spec_fn(TypeId) -> bool) -> bool {
    match h {
        Shape::Composite(fs) => distinct_fields(fs) && all_in(ids(fs), s),
        Shape::Variant(vs) => distinct_variants(vs) && forall|i: int| 0 <= i < vs.len() ==> distinct_fields((#[trigger] vs[i]).fields) && all_in(ids(vs[i].fields), s),
        Shape::Sequence(t) => s(t),
        Shape::Array(t, n) => s(t),
        Shape::Tuple(ts) => all_in(ts, s),
        Shape::Primitive(p) => !(p is U256) && !(p is I256),
        Shape::Compact(t) => s(t) && !is_compact(reg, narrow(reg, t)),
        _ => true,
    }
}
pub open spec fn good(reg: Registry, s: spec_fn(TypeId) -> bool) -> bool { forall|id: TypeId| #[trigger] s(id) && reg.shape(id) is Ok ==> good_shape(reg, reg.shape(id)->Ok_0, s) }
// wrappers of one field or item have lower ranks: the encoder's view of the same
proof fn ranks(reg: Registry, id: TypeId) requires founded(reg) ensures single(reg, id) is Some && by_struct_or_tuple(reg, id) ==> reg.rank(single(reg, id)->Some_0) < reg.rank(id)
{ match reg.shape(id) { Ok(Shape::Composite(fs)) => { if fs.len() == 1 { assert(ids(fs)[0] == fs[0].id); } } Ok(Shape::Tuple(ts)) => { if ts.len() == 1 { assert(ts[0] == ts[0]); } } _ => {} } }
pub open spec fn by_struct_or_tuple(reg: Registry, w: TypeId) -> bool { reg.shape(w) is Ok && (reg.shape(w)->Ok_0 is Composite || reg.shape(w)->Ok_0 is Tuple) }

pub open spec fn back<C>(reg: Registry, v: Value<C>, id: TypeId, b: Seq<u8>, rest: Seq<u8>) -> bool { enc(reg, v, id) is Ok && b == enc(reg, v, id)->Ok_0 + rest }
pub open spec fn all_back(e: EncR, b: Seq<u8>, rest: Seq<u8>) -> bool { e is Ok && b == e->Ok_0 + rest }

// a compact number, below any wrappers
proof fn back_compact<C>(reg: Registry, b: Seq<u8>, id: TypeId, k: TypeId, c: TypeId, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), kind(reg, k, Shape::Compact(c)), narrow(reg, id) == narrow(reg, c), !is_compact(reg, narrow(reg, c)), dec(reg, b, id, true, canon()) is Ok, denotes(v, (dec(reg, b, id, true, canon())->Ok_0).0, f)
    ensures back(reg, v, k, b, (dec(reg, b, id, true, canon())->Ok_0).1)
    decreases reg.rank(id)
{
    let (t, rest) = dec(reg, b, id, true, canon())->Ok_0;
    match reg.shape(id) {
        Ok(Shape::Primitive(p)) => {
            powers();
            assert(narrow(reg, id) == id);
            compact_back(b, pow256(num_len(p)) - 1);
            let n = (compact_read(b, pow256(num_len(p)) - 1)->Ok_0).0;
            assert(narrow(reg, k) == k);
            assert(v.value is Primitive && pt(v.value->Primitive_0) == PT::U128(n as u128));
            assert(v.value->Primitive_0 == Primitive::U128(n as u128));
            assert(enc(reg, v, k) == enc_num(reg, n, k));
        }
        Ok(Shape::Composite(fs)) => {
            ranks(reg, id);
            assert(narrow(reg, id) == narrow(reg, fs[0].id));
            let m = dec_fields(reg, b, fs, true, canon(), reg.rank(id));
            assert(ids(fs)[0] == fs[0].id);
            one_item(reg, b, ids(fs), true, canon(), reg.rank(id));
            assert(m == dec_items(reg, b, ids(fs), true, canon(), reg.rank(id)));
            let c2 = v.value->Composite_0;
            assert(t.def == TDef::Comp(gather(fs, (m->Ok_0).0)));
            let x = match c2 { Composite::Named(w) => { assert(denotes_item(w@[0], gather(fs, (m->Ok_0).0)->Named_0[0], f)); w@[0].1 } Composite::Unnamed(w) => { assert(denotes(w@[0], gather(fs, (m->Ok_0).0)->Unnamed_0[0], f)); w@[0] } };
            back_compact(reg, b, fs[0].id, k, c, x, f);
            assert(enc_only(reg, c2, k) == enc(reg, x, k));
            assert(plain(reg, c2, k) == enc_only(reg, c2, k));
            assert(single_unnamed(reg, k) is None);
            assert(enc(reg, v, k) == enc_comp(reg, c2, k));
        }
        Ok(Shape::Tuple(ts)) => {
            ranks(reg, id);
            assert(narrow(reg, id) == narrow(reg, ts[0]));
            one_item(reg, b, ts, true, canon(), reg.rank(id));
            assert(dec_list(reg, b, ts, true, canon(), reg.rank(id)) == dec_items(reg, b, ts, true, canon(), reg.rank(id)));
            let c2 = v.value->Composite_0;
            let w = c2->Unnamed_0;
            let m = dec_items(reg, b, ts, true, canon(), reg.rank(id));
            assert(t.def == TDef::Comp(TComp::Unnamed((m->Ok_0).0)));
            assert(denotes(w@[0], (m->Ok_0).0[0], f));
            back_compact(reg, b, ts[0], k, c, w@[0], f);
            assert(enc_only(reg, c2, k) == enc(reg, w@[0], k));
            assert(plain(reg, c2, k) == enc_only(reg, c2, k));
            assert(single_unnamed(reg, k) is None);
            assert(enc(reg, v, k) == enc_comp(reg, c2, k));
        }
        Ok(Shape::Compact(_)) => { assert(narrow(reg, id) == id); }
        _ => {}
    }
}
proof fn one_item(reg: Registry, b: Seq<u8>, ts: Seq<TypeId>, cpt: bool, cfg: Cfg, d: nat)
    requires founded(reg), ts.len() == 1, reg.rank(ts[0]) < d
    ensures dec_items(reg, b, ts, cpt, cfg, d) == (match dec(reg, b, ts[0], cpt, cfg) { Ok((t, rest)) => Ok((seq![t], rest)), Err(e) => Err(e) })
{ dec_tail(reg, b, ts[0], cpt, cfg); if dec(reg, b, ts[0], cpt, cfg) is Ok { let (t, rest) = dec(reg, b, ts[0], cpt, cfg)->Ok_0; assert(ts.skip(1).len() == 0); assert(dec_items(reg, rest, ts.skip(1), cpt, cfg, d) == Ok::<(Seq<Tree>, Seq<u8>), DecodeError>((Seq::empty(), rest))); assert(seq![t] + Seq::<Tree>::empty() =~= seq![t]); } }

// the encodings of some values one after the other
pub open spec fn cat<C>(reg: Registry, vs: Seq<Value<C>>, ts: Seq<TypeId>, n: nat) -> EncR decreases n { if n == 0 { Ok(Seq::empty()) } else { then(cat(reg, vs, ts, (n - 1) as nat), enc(reg, vs[n - 1], ts[n - 1])) } }
proof fn cat_unnamed<C>(reg: Registry, v: Vec<Value<C>>, ts: Seq<TypeId>, n: nat) requires n <= v@.len(), cat(reg, v@, ts, n) is Ok ensures unnamed_upto(reg, v, ts, n) == cat(reg, v@, ts, n) decreases n
{ if n > 0 { cat_unnamed(reg, v, ts, (n - 1) as nat); } }
pub open spec fn seconds<C>(v: Seq<(String, Value<C>)>) -> Seq<Value<C>> { v.map_values(|x: (String, Value<C>)| x.1) }
pub open spec fn names_match<C>(v: Seq<(String, Value<C>)>, fs: Seq<SField>) -> bool { v.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).name is Some && v[i].0@ == fs[i].name->Some_0 }
proof fn the_one_named<C>(v: Seq<(String, Value<C>)>, fs: Seq<SField>, k: int, n: nat) requires names_match(v, fs), distinct_fields(fs), 0 <= k < n <= v.len() ensures last_named(v, fs[k].name->Some_0, n) == Some(k) decreases n
{ if k < n - 1 { assert(fs[k].name != fs[n - 1].name); assert(v[n - 1].0@ == fs[n - 1].name->Some_0); the_one_named(v, fs, k, (n - 1) as nat); } else { assert(v[k].0@ == fs[k].name->Some_0); } }
proof fn cat_named<C>(reg: Registry, v: Vec<(String, Value<C>)>, fs: Seq<SField>, n: nat) requires n <= fs.len(), names_match(v@, fs), distinct_fields(fs), cat(reg, seconds(v@), ids(fs), n) is Ok
    ensures fields_by_name(reg, v, fs, n) == cat(reg, seconds(v@), ids(fs), n) decreases n
{ if n > 0 { cat_named(reg, v, fs, (n - 1) as nat); the_one_named(v@, fs, n - 1, v@.len()); assert(fs[n - 1].name is Some); assert(ids(fs)[n - 1] == fs[n - 1].id); assert(seconds(v@)[n - 1] == v@[n - 1].1); assert(or_empty(fs[n - 1].name) == fs[n - 1].name->Some_0); } }
pub open spec fn all_denote<C>(vs: Seq<Value<C>>, us: Seq<Tree>, f: spec_fn(TypeId) -> C) -> bool { vs.len() == us.len() && forall|i: int| 0 <= i < vs.len() ==> denotes(#[trigger] vs[i], us[i], f) }

proof fn back_prim<C>(reg: Registry, b: Seq<u8>, id: TypeId, p: PrimitiveType, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires kind(reg, id, Shape::Primitive(p)), !(p is U256), !(p is I256), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(narrow(reg, id) == id);
    assert(same_repr(reg, id) == id);
    let q = v.value->Primitive_0;
    assert(v.value is Primitive && t.def == TDef::Prim(pt(q)));
    assert(enc(reg, v, id) == enc_prim(reg, q, id));
    if num_len(p) > 0 {
        let x = b.take(num_len(p) as int);
        num_both_ways(p, x);
        split(b, num_len(p) as int);
        let n = num_of(p, x);
        assert(num_unsigned(p) ==> q == Primitive::U128(n as u128) && (n as u128) as int == n);
        assert(num_signed(p) ==> q == Primitive::I128(n as i128) && (n as i128) as int == n);
        assert(num_unsigned(p) || num_signed(p));
        assert(enc_prim(reg, q, id) == enc_num(reg, n, id));
    } else if p is Bool {
        split(b, 1);
        assert(b.take(1) =~= seq![b[0]]);
        assert(q == Primitive::Bool(b[0] == 1));
    } else if p is Char {
        split(b, 4);
        let n = from_le(b.take(4));
        le_from(b.take(4));
        let c = to_char(n);
        assert(code(c) == n);
        assert(q == Primitive::Char(c));
        assert(c as int == n);
        assert(enc_char(reg, c, id) == Ok::<Seq<u8>, Error>(le(n, 4)));
    } else {
        assert(p is Str);
        compact_back(b, 0xffff_ffff);
        let (n, r) = compact_read(b, 0xffff_ffff)->Ok_0;
        split(r, n);
        let s = to_text(r.take(n));
        assert(encode_utf8(s) == r.take(n));
        assert(q is String && q->String_0@ == s);
        assert(enc_str(reg, s, id) == Ok::<Seq<u8>, Error>(compact(n) + r.take(n)));
        assert(compact(n) + (r.take(n) + r.skip(n)) =~= (compact(n) + r.take(n)) + r.skip(n));
    }
}
proof fn back_tuple<C>(reg: Registry, b: Seq<u8>, id: TypeId, ts: Seq<TypeId>, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), kind(reg, id, Shape::Tuple(ts)), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
    decreases b.len(), reg.rank(id), 2nat, 0nat
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
        let m = dec_list(reg, b, ts, false, canon(), reg.rank(id));
        let c = v.value->Composite_0;
        let w = c->Unnamed_0;
        assert(v.value is Composite && denotes_comp(c, TComp::Unnamed((m->Ok_0).0), f));
        assert(m == dec_items(reg, b, ts, false, canon(), reg.rank(id)));
        assert(enc(reg, v, id) == enc_comp(reg, c, id));
        items_tail(reg, b, ts, false, canon(), reg.rank(id));
        if ts.len() == 1 {
            one_item(reg, b, ts, false, canon(), reg.rank(id));
            assert(denotes(w@[0], (m->Ok_0).0[0], f));
            back_any(reg, b, ts[0], s, w@[0], f);
            assert(enc_only(reg, c, ts[0]) == enc(reg, w@[0], ts[0]));
        } else {
            assert(ts.skip(0) =~= ts); assert(b =~= Seq::<u8>::empty() + b); back_items(reg, b, b, ts, s, reg.rank(id), w@, f, 0);
            cat_unnamed(reg, w, ts, ts.len());
            assert(ids(unnamed_fields(ts)) =~= ts);
            assert(skip_unnamed(reg, id) == id);
            assert(enc_items(reg, c, ts, true) == unnamed_upto(reg, w, ts, ts.len()));
            assert(enc_fields(reg, c, unnamed_fields(ts)) == enc_items(reg, c, ts, true));
            assert(sc_comp(reg, c, id) == enc_fields(reg, c, unnamed_fields(ts)));
            assert(plain(reg, c, id) == sc_comp(reg, c, id));
        }
}
proof fn back_sequence<C>(reg: Registry, b: Seq<u8>, id: TypeId, e: TypeId, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), kind(reg, id, Shape::Sequence(e)), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
    decreases b.len(), reg.rank(id), 2nat, 0nat
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
        compact_back(b, 0xffff_ffff_ffff_ffff);
        let (n, r) = compact_read(b, 0xffff_ffff_ffff_ffff)->Ok_0;
        let ts = repeat(n as nat, e);
        let m = dec_list(reg, r, ts, false, canon(), reg.top());
        assert(m == dec_items(reg, r, ts, false, canon(), reg.top()));
        let c = v.value->Composite_0;
        let w = c->Unnamed_0;
        assert(v.value is Composite && denotes_comp(c, TComp::Unnamed((m->Ok_0).0), f));
        assert(all_below(reg, ts, reg.top()));
        items_tail(reg, r, ts, false, canon(), reg.top());
        assert(ts.skip(0) =~= ts); assert(r =~= Seq::<u8>::empty() + r); back_items(reg, r, r, ts, s, reg.top(), w@, f, 0);
        cat_unnamed(reg, w, ts, ts.len());
        assert(enc(reg, v, id) == enc_comp(reg, c, id));
        assert(single_unnamed(reg, id) is None);
        assert(enc_items(reg, c, ts, true) == unnamed_upto(reg, w, ts, ts.len()));
        let x = cat(reg, w@, ts, ts.len())->Ok_0;
        assert(plain(reg, c, id) == Ok::<Seq<u8>, Error>(compact(n) + x));
        assert(compact(n) + (x + rest) =~= (compact(n) + x) + rest);
}
proof fn back_array<C>(reg: Registry, b: Seq<u8>, id: TypeId, e: TypeId, n: int, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), kind(reg, id, Shape::Array(e, n)), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
    decreases b.len(), reg.rank(id), 2nat, 0nat
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
        let ts = repeat(n as nat, e);
        let m = dec_list(reg, b, ts, false, canon(), reg.rank(id));
        assert(m == dec_items(reg, b, ts, false, canon(), reg.rank(id)));
        let c = v.value->Composite_0;
        let w = c->Unnamed_0;
        assert(v.value is Composite && denotes_comp(c, TComp::Unnamed((m->Ok_0).0), f));
        assert(all_below(reg, ts, reg.rank(id)));
        items_tail(reg, b, ts, false, canon(), reg.rank(id));
        assert(ts.skip(0) =~= ts); assert(b =~= Seq::<u8>::empty() + b); back_items(reg, b, b, ts, s, reg.rank(id), w@, f, 0);
        cat_unnamed(reg, w, ts, ts.len());
        assert(enc(reg, v, id) == enc_comp(reg, c, id));
        assert(single_unnamed(reg, id) is None);
        assert(enc_items(reg, c, ts, false) == unnamed_upto(reg, w, ts, ts.len()));
        assert(plain(reg, c, id) == enc_items(reg, c, ts, false));
}
proof fn back_variant<C>(reg: Registry, b: Seq<u8>, id: TypeId, vs: Seq<SVariant>, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), kind(reg, id, Shape::Variant(vs)), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
    decreases b.len(), reg.rank(id), 2nat, 0nat
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
        index_in(vs, b[0]);
        let w = with_index(vs, b[0])->Some_0;
        let i = choose|i: int| 0 <= i < vs.len() && vs[i] == w;
        let m = dec_fields(reg, b.skip(1), w.fields, false, canon(), reg.top());
        assert(dec(reg, b, id, false, canon()) == a_variant(m, w.name, w.fields, id));
        assert(all_below(reg, ids(w.fields), reg.top()));
        let x = v.value->Variant_0;
        assert(v.value is Variant && x.name@ == w.name && denotes_comp(x.values, gather(w.fields, (m->Ok_0).0), f));
        assert(distinct_fields(vs[i].fields));
        back_fields(reg, b.skip(1), w.fields, s, reg.top(), x.values, f);
        find_it(vs, i);
        assert(narrow(reg, id) == id);
        split(b, 1);
        assert(b.take(1) =~= seq![b[0]]);
        let y = enc_fields(reg, x.values, w.fields)->Ok_0;
        assert(enc(reg, v, id) == enc_variant(reg, x.name@, x.values, id));
        assert(enc_variant(reg, x.name@, x.values, id) == Ok::<Seq<u8>, Error>(seq![w.index] + y));
        assert(seq![b[0]] + (y + rest) =~= (seq![b[0]] + y) + rest);
}
proof fn back_struct<C>(reg: Registry, b: Seq<u8>, id: TypeId, fs: Seq<SField>, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), kind(reg, id, Shape::Composite(fs)), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
    decreases b.len(), reg.rank(id), 2nat, 0nat
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
            let m = dec_fields(reg, b, fs, false, canon(), reg.rank(id));
            let c = v.value->Composite_0;
            assert(v.value is Composite && denotes_comp(c, gather(fs, (m->Ok_0).0), f));
            assert(enc(reg, v, id) == enc_comp(reg, c, id));
            back_fields(reg, b, fs, s, reg.rank(id), c, f);
            if fs.len() == 1 && fs[0].name is None {
                let w = c->Unnamed_0;
                assert(!named_fields(fs));
                assert(single_unnamed(reg, id) == Some(fs[0].id));
                assert(ids(fs)[0] == fs[0].id);
                one_item(reg, b, ids(fs), false, canon(), reg.rank(id));
                assert(m == dec_items(reg, b, ids(fs), false, canon(), reg.rank(id)));
                assert(denotes(w@[0], (m->Ok_0).0[0], f));
                back_any(reg, b, fs[0].id, s, w@[0], f);
                assert(enc_only(reg, c, fs[0].id) == enc(reg, w@[0], fs[0].id));
            } else {
                if fs.len() == 1 { assert(fs[0].name is Some); assert(named_fields(fs)); }
                items_tail(reg, b, ids(fs), false, canon(), reg.rank(id));
                assert(m == dec_items(reg, b, ids(fs), false, canon(), reg.rank(id)));
                assert(single_unnamed(reg, id) is None);
                assert(skip_unnamed(reg, id) == id);
                assert(sc_comp(reg, c, id) == enc_fields(reg, c, fs));
                assert(plain(reg, c, id) == sc_comp(reg, c, id));
            }
        
}
proof fn back_any<C>(reg: Registry, b: Seq<u8>, id: TypeId, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures back(reg, v, id, b, (dec(reg, b, id, false, canon())->Ok_0).1) /*@ S05 */
    decreases b.len(), reg.rank(id), 2nat, 1nat
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
    match reg.shape(id) {
        Ok(Shape::Primitive(p)) => { back_prim(reg, b, id, p, v, f); }
        Ok(Shape::Compact(c)) => { back_compact(reg, b, c, id, c, v, f); }
        Ok(Shape::BitSequence(st, o)) => { assert(narrow(reg, id) == id); assert(v.value is BitSequence); assert(enc(reg, v, id) == enc_bits(reg, v.value->BitSequence_0.bits(), id)); }
        Ok(Shape::Composite(fs)) => { back_struct(reg, b, id, fs, s, v, f); }
        Ok(Shape::Tuple(ts)) => { back_tuple(reg, b, id, ts, s, v, f); }
        Ok(Shape::Sequence(e)) => { back_sequence(reg, b, id, e, s, v, f); }
        Ok(Shape::Array(e, n)) => { back_array(reg, b, id, e, n, s, v, f); }
        Ok(Shape::Variant(vs)) => { back_variant(reg, b, id, vs, s, v, f); }
        _ => {}
    }
}
proof fn find_it(vs: Seq<SVariant>, i: int) requires distinct_variants(vs), 0 <= i < vs.len() ensures find_variant(vs, vs[i].name) == Some(vs[i]) decreases vs.len()
{ if i > 0 { assert(vs[0].name != vs[i].name); let t = vs.skip(1); assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).name != (#[trigger] t[b]).name by { assert(vs[a + 1].name != vs[b + 1].name); } find_it(t, i - 1); assert(t[i - 1] == vs[i]); } }
// a struct's or variant's fields
proof fn back_fields<C>(reg: Registry, b: Seq<u8>, fs: Seq<SField>, s: spec_fn(TypeId) -> bool, d: nat, c: Composite<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), all_in(ids(fs), s), all_below(reg, ids(fs), d), distinct_fields(fs), dec_fields(reg, b, fs, false, canon(), d) is Ok, denotes_comp(c, gather(fs, (dec_fields(reg, b, fs, false, canon(), d)->Ok_0).0), f)
    ensures all_back(enc_fields(reg, c, fs), b, (dec_fields(reg, b, fs, false, canon(), d)->Ok_0).1), c is Named == named_fields(fs), count(c) == fs.len()
    decreases b.len(), d, 1nat, fs.len() + 2
{
    let m = dec_items(reg, b, ids(fs), false, canon(), d);
    assert(dec_fields(reg, b, fs, false, canon(), d) == m) by { if !named_fields(fs) { assert(dec_fields(reg, b, fs, false, canon(), d) == dec_list(reg, b, ids(fs), false, canon(), d)); } }
    items_tail(reg, b, ids(fs), false, canon(), d);
    let us = (m->Ok_0).0;
    if named_fields(fs) {
        let v = c->Named_0;
        assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).name is Some && v@[i].0@ == fs[i].name->Some_0 && denotes(v@[i].1, us[i], f) by { assert(denotes_item(v@[i], gather(fs, us)->Named_0[i], f)); }
        assert forall|i: int| 0 <= i < seconds(v@).len() implies denotes(#[trigger] seconds(v@)[i], us[i], f) by { assert(seconds(v@)[i] == v@[i].1); assert(fs[i].name is Some); }
        assert(ids(fs).skip(0) =~= ids(fs)); assert(b =~= Seq::<u8>::empty() + b); back_items(reg, b, b, ids(fs), s, d, seconds(v@), f, 0);
        cat_named(reg, v, fs, fs.len());
        assert(any_named(fs)) by { assert(fs[0].name is Some); }
        assert(enc_fields(reg, c, fs) == fields_by_name(reg, v, fs, fs.len()));
    } else {
        let v = c->Unnamed_0;
        assert(ids(fs).skip(0) =~= ids(fs)); assert(b =~= Seq::<u8>::empty() + b); back_items(reg, b, b, ids(fs), s, d, v@, f, 0);
        cat_unnamed(reg, v, ids(fs), fs.len());
        assert(enc_items(reg, c, ids(fs), true) == unnamed_upto(reg, v, ids(fs), fs.len()));
        assert(enc_fields(reg, c, fs) == enc_items(reg, c, ids(fs), true));
    }
}
// from the k-th item on: all before it is encoded already
proof fn back_items<C>(reg: Registry, b0: Seq<u8>, b: Seq<u8>, ts: Seq<TypeId>, s: spec_fn(TypeId) -> bool, d: nat, vs: Seq<Value<C>>, f: spec_fn(TypeId) -> C, k: int)
    requires founded(reg), good(reg, s), all_in(ts, s), all_below(reg, ts, d), 0 <= k <= ts.len(), vs.len() == ts.len(), dec_items(reg, b, ts.skip(k), false, canon(), d) is Ok,
        forall|i: int| 0 <= i < (ts.len() - k) ==> denotes(vs[k + i], #[trigger] (dec_items(reg, b, ts.skip(k), false, canon(), d)->Ok_0).0[i], f),
        all_back(cat(reg, vs, ts, k as nat), b0, b)
    ensures all_back(cat(reg, vs, ts, ts.len()), b0, (dec_items(reg, b, ts.skip(k), false, canon(), d)->Ok_0).1)
    decreases b.len(), d, 1nat, ts.len() - k
{
    let tt = ts.skip(k);
    if k < ts.len() {
        assert(tt[0] == ts[k]);
        assert(tt.skip(1) =~= ts.skip(k + 1));
        dec_tail(reg, b, tt[0], false, canon());
        let (t, r) = dec(reg, b, tt[0], false, canon())->Ok_0;
        let (us, rest) = dec_items(reg, b, tt, false, canon(), d)->Ok_0;
        assert(reg.rank(ts[k]) < d);
        let rec = dec_items(reg, r, tt.skip(1), false, canon(), d);
        assert(all_below(reg, tt, d)) by { assert forall|i: int| 0 <= i < tt.len() implies reg.rank(#[trigger] tt[i]) < d by { assert(reg.rank(ts[k + i]) < d); } }
        items_tail(reg, b, tt, false, canon(), d);
        assert(us == seq![t] + (rec->Ok_0).0);
        assert(us.len() == ts.len() - k);
        assert(us[0] == t);
        assert(denotes(vs[k + 0], us[0], f));
        back_any(reg, b, ts[k], s, vs[k], f);
        let x = cat(reg, vs, ts, k as nat)->Ok_0; let y = enc(reg, vs[k], ts[k])->Ok_0;
        assert(cat(reg, vs, ts, (k + 1) as nat) == Ok::<Seq<u8>, Error>(x + y));
        assert(x + (y + r) =~= (x + y) + r);
        assert forall|i: int| 0 <= i < (ts.len() - (k + 1)) implies denotes(vs[(k + 1) + i], #[trigger] (rec->Ok_0).0[i], f) by { assert(us[i + 1] == (rec->Ok_0).0[i]); assert(denotes(vs[k + (i + 1)], us[i + 1], f)); }
        back_items(reg, b0, r, ts, s, d, vs, f, k + 1);
    }
}
"""

AGAIN = r"""
// ---- and decodes again, whatever follows
// scale_bits reads back what it writes
#[verifier::external_body]
pub proof fn bits_there(x: Seq<bool>, st: BitsStoreFormat, o: BitsOrderFormat, r: Seq<u8>) ensures bits_read(bits_bytes(x, st, o) + r, st, o) == Ok::<(Seq<bool>, Seq<u8>), DecodeError>((x, r)) { }
pub type One = Result<(Tree, Seq<u8>), DecodeError>;
proof fn skips(p: Seq<u8>, q: Seq<u8>, k: int) requires 0 <= k <= p.len() ensures (p + q).take(k) == p.take(k), (p + q).skip(k) == p.skip(k) + q { assert((p + q).take(k) =~= p.take(k)); assert((p + q).skip(k) =~= p.skip(k) + q); }
proof fn compact_again(p: Seq<u8>, rest: Seq<u8>, r: Seq<u8>, max: int) requires compact_read(p + rest, max) is Ok, (compact_read(p + rest, max)->Ok_0).1.len() >= rest.len()
    ensures ({ let (n, q) = compact_read(p + rest, max)->Ok_0; let l = compact_len(p + rest); l <= p.len() && q == p.skip(l) + rest && compact_read(p + r, max) == Ok::<(int, Seq<u8>), DecodeError>((n, p.skip(l) + r)) })
{ let b = p + rest; let l = compact_len(b); assert(b.len() > 0 && l >= 1); assert(p.len() >= l); assert(b[0] == p[0] && (p + r)[0] == p[0]); skips(p, rest, l); skips(p, r, l); }
proof fn prim_again(p: PrimitiveType, x: Seq<u8>, rest: Seq<u8>, r: Seq<u8>, cpt: bool) requires !(p is U256), !(p is I256), read_prim(x + rest, p, cpt) is Ok, (read_prim(x + rest, p, cpt)->Ok_0).1 == rest
    ensures read_prim(x + r, p, cpt) == Ok::<(PT, Seq<u8>), DecodeError>(((read_prim(x + rest, p, cpt)->Ok_0).0, r))
{
    let b = x + rest;
    if cpt { let max = pow256(num_len(p)) - 1; compact_again(x, rest, r, max); assert(x.skip(compact_len(b)).len() == 0); assert(x.skip(compact_len(b)) + r =~= r); }
    else if num_len(p) > 0 { let k = num_len(p) as int; assert(x.len() == k); skips(x, rest, k); skips(x, r, k); assert(x.skip(k) + r =~= r); }
    else if p is Bool { assert(x.len() == 1); skips(x, r, 1); assert(x.skip(1) + r =~= r); }
    else if p is Char { assert(x.len() == 4); skips(x, rest, 4); skips(x, r, 4); assert(x.skip(4) + r =~= r); }
    else {
        let (n, q) = compact_read(b, 0xffff_ffff)->Ok_0;
        compact_back(b, 0xffff_ffff);
        compact_again(x, rest, r, 0xffff_ffff);
        let y = x.skip(compact_len(b));
        assert(y.len() == n);
        skips(y, rest, n); skips(y, r, n); assert(y.skip(n) + r =~= r);
    }
}
proof fn again(reg: Registry, p: Seq<u8>, rest: Seq<u8>, r: Seq<u8>, id: TypeId, cpt: bool, s: spec_fn(TypeId) -> bool)
    requires founded(reg), good(reg, s), s(id), dec(reg, p + rest, id, cpt, canon()) is Ok, (dec(reg, p + rest, id, cpt, canon())->Ok_0).1 == rest
    ensures dec(reg, p + r, id, cpt, canon()) == Ok::<(Tree, Seq<u8>), DecodeError>(((dec(reg, p + rest, id, cpt, canon())->Ok_0).0, r)) /*@ S05 */
    decreases (p + rest).len(), reg.rank(id), 2nat, 0nat
{
    let b = p + rest;
    assert(good_shape(reg, reg.shape(id)->Ok_0, s));
    match reg.shape(id) {
        Ok(Shape::Primitive(q)) => { prim_again(q, p, rest, r, cpt); }
        Ok(Shape::Composite(fs)) => { assert(all_below(reg, ids(fs), reg.rank(id))); again_fields(reg, p, rest, r, fs, cpt, s, reg.rank(id)); }
        Ok(Shape::Tuple(ts)) => { again_list(reg, p, rest, r, ts, cpt, s, reg.rank(id)); }
        Ok(Shape::Array(t, n)) => { again_list(reg, p, rest, r, repeat(n as nat, t), false, s, reg.rank(id)); }
        Ok(Shape::Compact(t)) => { again(reg, p, rest, r, t, true, s); }
        Ok(Shape::BitSequence(st, o)) => { let x = (bits_read(b, st, o)->Ok_0).0; bits_there(x, st, o, r); let w = bits_bytes(x, st, o); assert(p =~= w) by { assert(b == w + rest); assert(p =~= b.take(b.len() - rest.len())); assert(w =~= b.take(b.len() - rest.len())); } }
        Ok(Shape::Sequence(t)) => {
            let max = 0xffff_ffff_ffff_ffff;
            compact_back(b, max);
            let (n, q) = compact_read(b, max)->Ok_0;
            let ts = repeat(n as nat, t);
            assert(all_below(reg, ts, reg.top()));
            let m = dec_list(reg, q, ts, false, canon(), reg.top());
            assert(dec(reg, b, id, cpt, canon()) == a_list(m, id));
            list_tail(reg, q, ts, false, canon(), reg.top());
            compact_again(p, rest, r, max);
            let y = p.skip(compact_len(b));
            again_list(reg, y, rest, r, ts, false, s, reg.top());
            assert((y + r).len() < (p + r).len());
            assert(dec(reg, p + r, id, cpt, canon()) == a_list(dec_list(reg, y + r, ts, false, canon(), reg.top()), id));
        }
        Ok(Shape::Variant(vs)) => {
            index_in(vs, b[0]);
            let w = with_index(vs, b[0])->Some_0;
            let i = choose|i: int| 0 <= i < vs.len() && vs[i] == w;
            assert(distinct_fields(vs[i].fields));
            let m = dec_fields(reg, b.skip(1), w.fields, false, canon(), reg.top());
            assert(dec(reg, b, id, cpt, canon()) == a_variant(m, w.name, w.fields, id));
            assert(all_below(reg, ids(w.fields), reg.top()));
            fields_tail(reg, b.skip(1), w.fields, false, canon(), reg.top());
            assert(p.len() >= 1);
            skips(p, rest, 1); skips(p, r, 1);
            again_fields(reg, p.skip(1), rest, r, w.fields, false, s, reg.top());
            assert((p + r)[0] == b[0]);
            assert(dec(reg, p + r, id, cpt, canon()) == a_variant(dec_fields(reg, (p + r).skip(1), w.fields, false, canon(), reg.top()), w.name, w.fields, id));
        }
        _ => {}
    }
}
proof fn again_fields(reg: Registry, p: Seq<u8>, rest: Seq<u8>, r: Seq<u8>, fs: Seq<SField>, cpt: bool, s: spec_fn(TypeId) -> bool, d: nat)
    requires founded(reg), good(reg, s), all_in(ids(fs), s), all_below(reg, ids(fs), d), dec_fields(reg, p + rest, fs, cpt, canon(), d) is Ok, (dec_fields(reg, p + rest, fs, cpt, canon(), d)->Ok_0).1 == rest
    ensures dec_fields(reg, p + r, fs, cpt, canon(), d) == Ok::<(Seq<Tree>, Seq<u8>), DecodeError>(((dec_fields(reg, p + rest, fs, cpt, canon(), d)->Ok_0).0, r))
    decreases (p + rest).len(), d, 1nat, fs.len() + 2
{ if named_fields(fs) { again_items(reg, p, rest, r, ids(fs), cpt, s, d); } else { again_list(reg, p, rest, r, ids(fs), cpt, s, d); } }
proof fn again_list(reg: Registry, p: Seq<u8>, rest: Seq<u8>, r: Seq<u8>, ts: Seq<TypeId>, cpt: bool, s: spec_fn(TypeId) -> bool, d: nat)
    requires founded(reg), good(reg, s), all_in(ts, s), all_below(reg, ts, d), dec_list(reg, p + rest, ts, cpt, canon(), d) is Ok, (dec_list(reg, p + rest, ts, cpt, canon(), d)->Ok_0).1 == rest
    ensures dec_list(reg, p + r, ts, cpt, canon(), d) == Ok::<(Seq<Tree>, Seq<u8>), DecodeError>(((dec_list(reg, p + rest, ts, cpt, canon(), d)->Ok_0).0, r))
    decreases (p + rest).len(), d, 1nat, ts.len() + 1
{ again_items(reg, p, rest, r, ts, cpt, s, d); }
proof fn again_items(reg: Registry, p: Seq<u8>, rest: Seq<u8>, r: Seq<u8>, ts: Seq<TypeId>, cpt: bool, s: spec_fn(TypeId) -> bool, d: nat)
    requires founded(reg), good(reg, s), all_in(ts, s), all_below(reg, ts, d), dec_items(reg, p + rest, ts, cpt, canon(), d) is Ok, (dec_items(reg, p + rest, ts, cpt, canon(), d)->Ok_0).1 == rest
    ensures dec_items(reg, p + r, ts, cpt, canon(), d) == Ok::<(Seq<Tree>, Seq<u8>), DecodeError>(((dec_items(reg, p + rest, ts, cpt, canon(), d)->Ok_0).0, r))
    decreases (p + rest).len(), d, 1nat, ts.len()
{
    let b = p + rest;
    if ts.len() == 0 { assert(p.len() == 0); assert(p + r =~= r); } else {
        let tt = ts.skip(1);
        assert(reg.rank(ts[0]) < d && s(ts[0]));
        assert(all_below(reg, tt, d)) by { assert forall|i: int| 0 <= i < tt.len() implies reg.rank(#[trigger] tt[i]) < d by { assert(reg.rank(ts[i + 1]) < d); } }
        assert(all_in(tt, s)) by { assert forall|i: int| 0 <= i < tt.len() implies s(#[trigger] tt[i]) by { assert(s(ts[i + 1])); } }
        dec_tail(reg, b, ts[0], cpt, canon());
        let (t, b1) = dec(reg, b, ts[0], cpt, canon())->Ok_0;
        items_tail(reg, b1, tt, cpt, canon(), d);
        let k = b.len() - b1.len();
        assert(rest.len() <= b1.len());
        let p0 = p.take(k); let p1 = p.skip(k);
        assert(b1 =~= p1 + rest);
        assert(b =~= p0 + b1);
        assert(p + r =~= p0 + (p1 + r));
        again(reg, p0, b1, p1 + r, ts[0], cpt, s);
        again_items(reg, p1, rest, r, tt, cpt, s, d);
    }
}
// S05 in one: any value that was decoded from bytes, as a type of a good set, encodes to exactly these bytes; they decode again to the same
proof fn round_trip<C>(reg: Registry, b: Seq<u8>, id: TypeId, s: spec_fn(TypeId) -> bool, v: Value<C>, f: spec_fn(TypeId) -> C)
    requires founded(reg), good(reg, s), s(id), dec(reg, b, id, false, canon()) is Ok, denotes(v, (dec(reg, b, id, false, canon())->Ok_0).0, f)
    ensures ({ let (t, rest) = dec(reg, b, id, false, canon())->Ok_0; let e = enc(reg, v, id);
        dec(reg, b, id, false, plainly()) == dec(reg, b, id, false, canon()) && e is Ok && b == e->Ok_0 + rest /*@ S05 */
        && dec(reg, e->Ok_0, id, false, plainly()) == Ok::<(Tree, Seq<u8>), DecodeError>((t, Seq::empty())) }) /*@ S05 */
{
    let (t, rest) = dec(reg, b, id, false, canon())->Ok_0;
    back_any(reg, b, id, s, v, f);
    let x = enc(reg, v, id)->Ok_0;
    settings(reg, b, id, false, canon());
    again(reg, x, rest, Seq::empty(), id, false, s);
    assert(x + Seq::<u8>::empty() =~= x);
    settings(reg, x, id, false, canon());
}
"""


def build(b):
    lib_value.types(b)
    b.emit("use vstd::utf8::*;\nuse vstd::string::*;\n")
    b.emit(lib_scale.REGISTRY)
    b.emit(lib_encode.SPEC)
    b.emit(lib_decode.BYTES)
    b.emit(lib_decode.SPEC)
    b.emit(u_enclaws.NUMBERS)
    b.emit(BASICS)
    b.emit(BACK)
    b.emit(AGAIN)
