"""What the contracts of the serde units come to: the serde properties as they are stated (D02, D04, D05, D06, D07)."""
from units import lib_serde
PROPS = ["D02", "D04", "D05", "D06", "D07"]

INTS = [p + w for p in "ui" for w in "8 16 32 64 128".split()]
GLUE = r"""
pub enum GP { Bool(bool), Char(char), Str(Seq<char>), U128(u128), I128(i128), U256(Seq<u8>), I256(Seq<u8>) }
pub enum GV { Prim(GP), Bits(Seq<bool>), Comp(GC), Var(Seq<char>, GC) }
pub enum GC { Named(Seq<(Seq<char>, GV)>), Unnamed(Seq<GV>) }
pub open spec fn unnamed(s: Seq<GV>) -> GV { GV::Comp(GC::Unnamed(s)) }
pub open spec fn named(s: Seq<(Seq<char>, GV)>) -> GV { GV::Comp(GC::Named(s)) }
"""

D02 = r"""
// ---- D02. serde's integer types: an offered number is taken if it has its type's range; the types up to 64 bits take no 128-bit offers
pub open spec fn number(o: Offer) -> Option<int> { match o { NUMBER _ => None } }
pub open spec fn wide(o: Offer) -> bool { o is U128 || o is I128 }
pub open spec fn wide_type(h: Hint) -> bool { h is U128 || h is I128 }
pub open spec fn int_visitor(h: Hint, o: Offer) -> Option<int> {
    match number(o) { Some(n) => if in_range(n, h) && (wide(o) ==> wide_type(h)) { Some(n) } else { None }, None => None }
}
pub open spec fn in_range(n: int, h: Hint) -> bool { match h { RANGE _ => false } }
pub open spec fn read_int(h: Hint, p: Part) -> Option<int> { match offer(p, h) { Some(o) => int_visitor(h, o), None => None } }
pub proof fn a_number_or_an_error(h: Hint, p: Part) requires numeric(h)
    ensures match p { Part::Val(GV::Prim(GP::U128(n))) | Part::Prim(GP::U128(n)) => stated(p, h) && read_int(h, p) == (if in_range(n as int, h) { Some(n as int) } else { None::<int> }) /*@ D02 D04 */,
        Part::Val(GV::Prim(GP::I128(n))) | Part::Prim(GP::I128(n)) => stated(p, h) && read_int(h, p) == (if in_range(n as int, h) { Some(n as int) } else { None::<int> }) /*@ D02 D04 */, _ => true } {}
pub open spec fn src_number(s: Src) -> Option<int> { match s { SNUMBER _ => None } }
pub open spec fn unsigned(s: Src) -> bool { s is U8 || s is U16 || s is U32 || s is U64 || s is U128 }
pub proof fn numbers_are_kept(s: Src) requires src_number(s) is Some
    ensures match val_from(s) { Some(GV::Prim(GP::U128(n))) => unsigned(s) && Some(n as int) == src_number(s), Some(GV::Prim(GP::I128(n))) => !unsigned(s) && Some(n as int) == src_number(s), _ => false } /*@ D02 */ {}
"""
D02 = D02.replace("SNUMBER", " ".join(f"Src::{t.upper()}(n) => Some(n as int)," for t in INTS)).replace("NUMBER", " ".join(f"Offer::{t.upper()}(n) => Some(n as int)," for t in INTS)).replace("RANGE", " ".join(f"Hint::{t.upper()} => {t}::MIN <= n <= {t}::MAX," for t in INTS))

D05 = r"""
// ---- D05. a value as the source of a value
pub open spec fn src_prim(p: GP) -> Src { match p { GP::Bool(b) => Src::Bool(b), GP::Char(c) => Src::Char(c), GP::Str(s) => Src::Str(s), GP::U128(n) => Src::U128(n), GP::I128(n) => Src::I128(n), GP::U256(b) => Src::Bytes(b), GP::I256(b) => Src::Bytes(b) } }
pub open spec fn src_of(v: GV) -> Src decreases v {
    match v { GV::Prim(p) => src_prim(p), GV::Bits(b) => Src::Map(seq![(Src::Str(mark()), Src::Seq(b.map_values(|x: bool| Src::Bool(x))))]), GV::Comp(c) => src_comp(c), GV::Var(n, c) => Src::Enum(Box::new(Src::Str(n)), Box::new(src_comp(c))) }
}
pub open spec fn src_comp(c: GC) -> Src decreases c {
    match c { GC::Named(xs) => Src::Map(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { src_item(xs[i]) } else { arbitrary() })), GC::Unnamed(xs) => Src::Seq(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { src_of(xs[i]) } else { arbitrary() })) }
}
pub open spec fn src_item(p: (Seq<char>, GV)) -> (Src, Src) decreases p { (Src::Str(p.0), src_of(p.1)) }
// it is what the offers are, item by item, when each is asked for anything
pub open spec fn part_src(p: Part) -> Src { match p { Part::Val(v) => src_of(v), Part::Comp(c) => src_comp(c), Part::Var(n, c) => src_of(GV::Var(n, c)), Part::Prim(p) => src_prim(p), Part::Text(t) => Src::Str(t), Part::Bools(b) => Src::Seq(b.map_values(|x: bool| Src::Bool(x))) } }
pub open spec fn offer_src(o: Offer) -> Src {
    match o {
        OFFERSRC
        Offer::Bool(b) => Src::Bool(b), Offer::Char(c) => Src::Char(c), Offer::Str(s) => Src::Str(s), Offer::Bytes(b) => Src::Bytes(b), Offer::ByteBuf(b) => Src::Bytes(b), Offer::None => Src::None, Offer::Unit => Src::Unit,
        Offer::Some(p) => Src::Some(Box::new(part_src(p))), Offer::Seq(s) => Src::Seq(s.map_values(|p: Part| part_src(p))), Offer::Map(s) => Src::Map(s.map_values(|e: (Seq<char>, Part)| (Src::Str(e.0), part_src(e.1)))), Offer::Enum(n, c) => Src::Enum(Box::new(Src::Str(n)), Box::new(src_comp(c))),
    }
}
pub proof fn offers_are_sources(p: Part) ensures stated(p, Hint::Any), offer(p, Hint::Any) is Some, offer_src(offer(p, Hint::Any)->Some_0) == part_src(p) /*@ D05 */
{
    match p {
        Part::Val(GV::Comp(c)) => { comp_offer(c); } Part::Comp(c) => { comp_offer(c); }
        Part::Val(GV::Bits(b)) => { bits_offer(b); assert(offer_src(offer(p, Hint::Any)->Some_0)->Map_0 =~= part_src(p)->Map_0); }
        Part::Bools(b) => { bits_offer(b); }
        _ => {}
    }
}
proof fn bits_offer(b: Seq<bool>) ensures b.map_values(|x: bool| Part::Prim(GP::Bool(x))).map_values(|p: Part| part_src(p)) == b.map_values(|x: bool| Src::Bool(x)) { assert(b.map_values(|x: bool| Part::Prim(GP::Bool(x))).map_values(|p: Part| part_src(p)) =~= b.map_values(|x: bool| Src::Bool(x))); }
proof fn comp_offer(c: GC) ensures offer_src(comp_any(c)) == src_comp(c)
{
    match c {
        GC::Named(xs) => { assert(offer_src(comp_any(c))->Map_0 =~= src_comp(c)->Map_0) by { assert forall|i: int| 0 <= i < xs.len() implies offer_src(comp_any(c))->Map_0[i] == #[trigger] src_comp(c)->Map_0[i] by { assert(src_comp(c)->Map_0[i] == src_item(xs[i])); } } }
        GC::Unnamed(xs) => { assert(offer_src(comp_any(c))->Seq_0 =~= src_comp(c)->Seq_0); }
    }
}
// no 256-bit numbers, and no named composite whose first name is the one that marks bit sequences
pub open spec fn kept(v: GV) -> bool decreases v { match v { GV::Prim(GP::U256(_)) | GV::Prim(GP::I256(_)) => false, GV::Prim(_) | GV::Bits(_) => true, GV::Comp(c) => kept_items(c) && !marked(c), GV::Var(n, c) => kept_items(c) } }
pub open spec fn marked(c: GC) -> bool { match c { GC::Named(xs) => xs.len() > 0 && xs[0].0 == mark(), _ => false } }
pub open spec fn kept_items(c: GC) -> bool decreases c { match c { GC::Named(xs) => forall|i: int| 0 <= i < xs.len() ==> kept_item(#[trigger] xs[i]), GC::Unnamed(xs) => forall|i: int| 0 <= i < xs.len() ==> kept(#[trigger] xs[i]) } }
pub open spec fn kept_item(p: (Seq<char>, GV)) -> bool decreases p { kept(p.1) }
pub proof fn a_value_from_a_value(v: GV) requires kept(v) ensures val_from(src_of(v)) == Some(v) /*@ D05 D06 */ decreases v
{
    match v {
        GV::Bits(b) => { let s = b.map_values(|x: bool| Src::Bool(x)); assert(s.map_values(|x: Src| x->Bool_0) =~= b); }
        GV::Comp(c) => { a_composite_from_a_composite(c); match c { GC::Named(xs) => { if xs.len() == 0 { assert(xs =~= seq![]); } else { assert(src_comp(c)->Map_0[0] == src_item(xs[0])); } } _ => {} } }
        GV::Var(n, c) => { a_composite_from_a_composite(c); }
        _ => {}
    }
}
pub proof fn a_composite_from_a_composite(c: GC) requires kept_items(c) ensures comp_from(src_comp(c)) == Some(c) /*@ D05 D06 */ decreases c
{
    match c {
        GC::Named(xs) => {
            let s = src_comp(c)->Map_0;
            assert forall|i: int| 0 <= i < s.len() implies entry_from(#[trigger] s[i]) == Some(xs[i]) by { assert(s[i] == src_item(xs[i])); assert(kept_item(xs[i])); a_value_from_a_value(xs[i].1); }
            entries_is(s); assert((entries_from(s)->Some_0)->Named_0 =~= xs);
        }
        GC::Unnamed(xs) => {
            let s = src_comp(c)->Seq_0;
            assert forall|i: int| 0 <= i < s.len() implies val_from(#[trigger] s[i]) == Some(xs[i]) by { assert(s[i] == src_of(xs[i])); assert(kept(xs[i])); a_value_from_a_value(xs[i]); }
            vals_is(s); assert((vals_from(s)->Some_0)->Unnamed_0 =~= xs);
        }
    }
}
pub proof fn a_variant_from_a_variant(n: Seq<char>, c: GC) requires kept_items(c) ensures var_from(src_of(GV::Var(n, c))) == Some((n, c)) /*@ D05 D06 */ { a_composite_from_a_composite(c); }
pub proof fn a_primitive_from_a_primitive(p: GP) requires kept(GV::Prim(p)) ensures prim_from(src_prim(p)) == Some(p) /*@ D05 */ {}
"""
D05 = D05.replace("OFFERSRC", " ".join(f"Offer::{t.upper()}(n) => Src::{t.upper()}(n)," for t in INTS))

D06 = r"""
// ---- D06. a variant through its data, as a format hands it on
pub open spec fn data_src(d: Data) -> Src decreases d {
    match d {
        DATASRC
        Data::Bool(b) => Src::Bool(b), Data::Char(c) => Src::Char(c), Data::Str(s) => Src::Str(s), Data::Unit => Src::Unit, Data::None => Src::None, Data::Some(x) => Src::Some(Box::new(data_src(*x))),
        Data::Seq(_, xs) => Src::Seq(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { data_src(xs[i]) } else { arbitrary() })),
        Data::Tuple(xs) => Src::Seq(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { data_src(xs[i]) } else { arbitrary() })),
        Data::Map(_, xs) => Src::Map(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { pair_src(xs[i]) } else { arbitrary() })),
        _ => Src::Fails,
    }
}
pub open spec fn pair_src(e: (Data, Data)) -> (Src, Src) decreases e { (data_src(e.0), data_src(e.1)) }
// what comes back when values of any sort are asked for: variants within as their name and values
pub open spec fn plain(v: GV) -> GV decreases v { match v { GV::Prim(GP::U256(b)) => unnamed(byte_vals(b)), GV::Prim(GP::I256(b)) => unnamed(byte_vals(b)), GV::Comp(c) => GV::Comp(plain_items(c)), GV::Var(n, c) => named(seq![("name"@, GV::Prim(GP::Str(n))), ("values"@, GV::Comp(plain_items(c)))]), _ => v } }
pub open spec fn plain_items(c: GC) -> GC decreases c { match c { GC::Named(xs) => GC::Named(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { plain_item(xs[i]) } else { arbitrary() })), GC::Unnamed(xs) => GC::Unnamed(Seq::new(xs.len(), |i: int| if 0 <= i < xs.len() { plain(xs[i]) } else { arbitrary() })) } }
pub open spec fn plain_item(p: (Seq<char>, GV)) -> (Seq<char>, GV) decreases p { (p.0, plain(p.1)) }
// no list longer than memory holds, and no composite with the marking name
pub open spec fn proper(v: GV) -> bool decreases v { match v { GV::Comp(c) => proper_items(c) && !marked(c), GV::Var(n, c) => proper_items(c) && !marked(c), GV::Bits(b) => b.len() <= usize::MAX, GV::Prim(_) => true } }
pub open spec fn proper_items(c: GC) -> bool decreases c { match c { GC::Named(xs) => forall|i: int| 0 <= i < xs.len() ==> proper_item(#[trigger] xs[i]), GC::Unnamed(xs) => forall|i: int| 0 <= i < xs.len() ==> proper(#[trigger] xs[i]) } }
pub open spec fn proper_item(p: (Seq<char>, GV)) -> bool decreases p { proper(p.1) }
pub proof fn names_differ() ensures "name"@ != "values"@, "name"@ != mark(), "values"@ != mark() { reveal_strlit("name"); reveal_strlit("values"); reveal_strlit("__bitvec__values__"); assert("name"@.len() != "values"@.len()); }
pub proof fn number_data(p: GP) requires p is U128 || p is I128 ensures prim_from(data_src(prim_data(p))) == Some(p), val_from(data_src(prim_data(p))) == Some(GV::Prim(p)) {}
pub proof fn a_value_through_its_data(v: GV) requires proper(v) ensures val_from(data_src(data_of(v))) == Some(plain(v)) /*@ D06 */ decreases v, 0int
{
    names_differ();
    match v {
        GV::Prim(GP::U256(b)) => { bytes_through(b); } GV::Prim(GP::I256(b)) => { bytes_through(b); }
        GV::Prim(p) => { if p is U128 || p is I128 { number_data(p); } }
        GV::Bits(b) => {
            let m = data_src(data_of(v))->Map_0; assert(m[0] == pair_src(entry(mark(), bits_data(b))));
            bits_through(b);
        }
        GV::Comp(c) => { a_composite_through_its_data(c); not_marked(c); }
        GV::Var(n, c) => {
            a_composite_through_its_data(c); not_marked(c);
            let m = data_src(data_of(v))->Map_0; assert(m[0] == pair_src(entry("name"@, Data::Str(n)))); assert(m[1] == pair_src(entry("values"@, comp_data(c))));
            comp_as_value(c);
            assert forall|i: int| 0 <= i < m.len() implies entry_from(#[trigger] m[i]) == Some((plain(v)->Comp_0)->Named_0[i]) by {}
            entries_is(m); assert((entries_from(m)->Some_0)->Named_0 =~= (plain(v)->Comp_0)->Named_0);
        }
    }
}
proof fn bits_through(b: Seq<bool>) ensures bools_from(data_src(bits_data(b))) == Some(b)
{
    let s = data_src(bits_data(b))->Seq_0;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) == Src::Bool(b[i]) by { assert(bits_data(b)->Seq_1[i] == Data::Bool(b[i])); assert(s[i] == data_src(Data::Bool(b[i]))); }
    assert(s.map_values(|x: Src| x->Bool_0) =~= b);
}
proof fn bytes_through(b: Seq<u8>) ensures val_from(data_src(byte_data(b))) == Some(unnamed(byte_vals(b)))
{
    let s = data_src(byte_data(b))->Seq_0; assert forall|i: int| 0 <= i < s.len() implies val_from(#[trigger] s[i]) == Some(byte_vals(b)[i]) by { assert(s[i] == data_src(Data::U8(b[i]))); }
    vals_is(s); assert((vals_from(s)->Some_0)->Unnamed_0 =~= byte_vals(b));
}
proof fn not_marked(c: GC) requires !marked(c) ensures match data_src(comp_data(c)) { Src::Map(m) => c is Named && m.len() == c->Named_0.len() && (m.len() > 0 ==> text_from(m[0].0) == Some(c->Named_0[0].0) && text_from(m[0].0) != Some(mark())), Src::Seq(s) => c is Unnamed, _ => false }
{ match c { GC::Named(xs) => { let m = data_src(comp_data(c))->Map_0; if xs.len() > 0 { assert(comp_data(c)->Map_1[0] == item_data(xs[0])); assert(m[0] == pair_src(item_data(xs[0]))); } } _ => {} } }
proof fn comp_as_value(c: GC) requires !marked(c), comp_from(data_src(comp_data(c))) == Some(plain_items(c)) ensures val_from(data_src(comp_data(c))) == Some(GV::Comp(plain_items(c)))
{ not_marked(c); match c { GC::Named(xs) => { if xs.len() == 0 { assert(plain_items(c)->Named_0 =~= seq![]); } } _ => {} } }
pub proof fn a_composite_through_its_data(c: GC) requires proper_items(c) ensures comp_from(data_src(comp_data(c))) == Some(plain_items(c)), !marked(c) ==> val_from(data_src(comp_data(c))) == Some(GV::Comp(plain_items(c))) /*@ D06 */ decreases c, 1int
{
    match c {
        GC::Named(xs) => {
            let m = data_src(comp_data(c))->Map_0;
            assert forall|i: int| 0 <= i < m.len() implies entry_from(#[trigger] m[i]) == Some(plain_item(xs[i])) by { assert(comp_data(c)->Map_1[i] == item_data(xs[i])); assert(m[i] == pair_src(item_data(xs[i]))); assert(proper_item(xs[i])); a_value_through_its_data(xs[i].1); }
            entries_is(m); assert((entries_from(m)->Some_0)->Named_0 =~= plain_items(c)->Named_0);
        }
        GC::Unnamed(xs) => {
            let s = data_src(comp_data(c))->Seq_0;
            assert forall|i: int| 0 <= i < s.len() implies val_from(#[trigger] s[i]) == Some(plain(xs[i])) by { assert(comp_data(c)->Seq_1[i] == data_of(xs[i])); assert(proper(xs[i])); a_value_through_its_data(xs[i]); }
            vals_is(s); assert((vals_from(s)->Some_0)->Unnamed_0 =~= plain_items(c)->Unnamed_0);
        }
    }
    if !marked(c) { comp_as_value(c); }
}
pub proof fn a_variant_through_its_data(n: Seq<char>, c: GC) requires proper_items(c) ensures var_from(data_src(variant_data(n, comp_data(c)))) == Some((n, plain_items(c))), (plain_items(c) is Named) == (c is Named) /*@ D06 */
{
    names_differ(); a_composite_through_its_data(c);
    let m = data_src(variant_data(n, comp_data(c)))->Map_0; assert(m[0] == pair_src(entry("name"@, Data::Str(n)))); assert(m[1] == pair_src(entry("values"@, comp_data(c))));
}
// nothing is different about values that hold no variants and no 256-bit numbers
pub open spec fn simple(v: GV) -> bool decreases v { match v { GV::Prim(GP::U256(_)) | GV::Prim(GP::I256(_)) => false, GV::Comp(c) => simple_items(c), GV::Var(..) => false, _ => true } }
pub open spec fn simple_items(c: GC) -> bool decreases c { match c { GC::Named(xs) => forall|i: int| 0 <= i < xs.len() ==> simple_item(#[trigger] xs[i]), GC::Unnamed(xs) => forall|i: int| 0 <= i < xs.len() ==> simple(#[trigger] xs[i]) } }
pub open spec fn simple_item(p: (Seq<char>, GV)) -> bool decreases p { simple(p.1) }
pub proof fn plain_is_same(v: GV) requires simple(v) ensures plain(v) == v /*@ D06 */ decreases v { match v { GV::Comp(c) => { plain_items_same(c); } _ => {} } }
pub proof fn plain_items_same(c: GC) requires simple_items(c) ensures plain_items(c) == c /*@ D06 */ decreases c
{
    match c {
        GC::Named(xs) => { assert forall|i: int| 0 <= i < xs.len() implies plain_items(c)->Named_0[i] == #[trigger] xs[i] by { assert(simple_item(xs[i])); plain_is_same(xs[i].1); } assert(plain_items(c)->Named_0 =~= xs); }
        GC::Unnamed(xs) => { assert forall|i: int| 0 <= i < xs.len() implies plain_items(c)->Unnamed_0[i] == #[trigger] xs[i] by { assert(simple(xs[i])); plain_is_same(xs[i]); } assert(plain_items(c)->Unnamed_0 =~= xs); }
    }
}
// either order, nothing missing, nothing else
pub proof fn name_and_values(xs: Seq<(Src, Src)>, n: Src, c: Src) requires no_repeats(xs)
    ensures var_from(Src::Map(xs)) is Some ==> xs.len() == 2 && ((is_name(xs[0]) && is_values(xs[1])) || (is_name(xs[1]) && is_values(xs[0]))) /*@ D06 */,
        text_from(n) is Some && comp_from(c) is Some ==> ({ let r = Some((text_from(n)->Some_0, comp_from(c)->Some_0)); var_from(Src::Map(seq![(Src::Str("name"@), n), (Src::Str("values"@), c)])) == r && var_from(Src::Map(seq![(Src::Str("values"@), c), (Src::Str("name"@), n)])) == r }) /*@ D06 */ { names_differ(); }
"""
D06 = D06.replace("DATASRC", " ".join(f"Data::{t.upper()}(n) => Src::{t.upper()}(n)," for t in INTS))

D07 = r"""
// ---- D07. lists out of values
pub open spec fn all_bytes(c: GC) -> bool { forall|i: int| 0 <= i < contents(c).len() ==> is_byte(#[trigger] contents(c)[i]) }
pub proof fn lists(c: GC, n: usize, p: Part) requires p == Part::Comp(c) || p == Part::Val(GV::Comp(c))
    ensures
        stated(p, Hint::Bytes) && stated(p, Hint::ByteBuf) && stated(p, Hint::Tuple(n)) && stated(p, Hint::TupleStruct(n)) && stated(p, Hint::Unit) && stated(p, Hint::UnitStruct) && stated(p, Hint::Seq) /*@ D07 */,
        (offer(p, Hint::Bytes) is Some <==> all_bytes(c)) && offer(p, Hint::ByteBuf) == offer(p, Hint::Bytes) /*@ D07 */,
        all_bytes(c) ==> offer(p, Hint::Bytes)->Some_0 is ByteBuf && offer(p, Hint::Bytes)->Some_0->ByteBuf_0.len() == contents(c).len() && forall|i: int| 0 <= i < contents(c).len() ==> contents(c)[i] == GV::Prim(GP::U128(#[trigger] (offer(p, Hint::Bytes)->Some_0->ByteBuf_0)[i] as u128)) /*@ D07 */,
        (offer(p, Hint::Tuple(n)) is Some <==> contents(c).len() == n) && (offer(p, Hint::TupleStruct(n)) is Some <==> contents(c).len() == n) /*@ D07 */,
        (offer(p, Hint::Unit) is Some <==> contents(c).len() == 0) && (offer(p, Hint::UnitStruct) is Some <==> contents(c).len() == 0) /*@ D07 */,
        offer(p, Hint::Seq) == Some(Offer::Seq(vals(contents(c)))) && (contents(c).len() == n ==> offer(p, Hint::Tuple(n)) == offer(p, Hint::Seq) && offer(p, Hint::TupleStruct(n)) == offer(p, Hint::Seq)) /*@ D07 */,
{}
pub proof fn options(v: GV) ensures
        // any other variant is offered as an enum, which no option takes
        forall|n: Seq<char>, c: GC| !optional(Part::Val(GV::Var(n, c))) ==> stated(Part::Val(GV::Var(n, c)), Hint::Option) && #[trigger] offer(Part::Val(GV::Var(n, c)), Hint::Option) == Some(Offer::Enum(n, c)) /*@ D07 */,
        stated(Part::Val(GV::Var("Some"@, GC::Unnamed(seq![v]))), Hint::Option) && offer(Part::Val(GV::Var("Some"@, GC::Unnamed(seq![v]))), Hint::Option) == Some(Offer::Some(Part::Val(v))) /*@ D07 D04 */,
        stated(Part::Val(GV::Var("None"@, GC::Unnamed(seq![]))), Hint::Option) && offer(Part::Val(GV::Var("None"@, GC::Unnamed(seq![]))), Hint::Option) == Some(Offer::None) /*@ D07 D04 */ { reveal_strlit("Some"); reveal_strlit("None"); assert("Some"@[0] == 'S'); assert("None"@[0] == 'N'); }
"""


D04 = r"""
// ---- D04. Rust types, as serde and its derive know them.  (A tuple struct or variant with one field is a newtype: those are left out, see DESIGN.md.)
pub enum Ty { Int(Hint), Bool, Char, Str, Opt(Box<Ty>), Unit, UnitStruct(Seq<char>), Tuple(Seq<Ty>), Seq(Box<Ty>), TupleStruct(Seq<char>, Seq<Ty>), Struct(Seq<char>, Seq<(Seq<char>, Ty)>), Map(Box<Ty>), Enum(Seq<char>, Seq<(Seq<char>, VTy)>) }
pub enum VTy { Unit, Tuple(Seq<Ty>), Struct(Seq<(Seq<char>, Ty)>) }
pub open spec fn int_data(h: Hint, n: int) -> Data { match h { INTDATA _ => arbitrary() } }
pub open spec fn distinct<A>(xs: Seq<(Seq<char>, A)>) -> bool { forall|i: int, j: int| 0 <= i < j < xs.len() ==> (#[trigger] xs[i]).0 != (#[trigger] xs[j]).0 }
// the data of the type's instances
pub open spec fn fits(t: Ty, d: Data) -> bool decreases t {
    match t {
        Ty::Int(h) => numeric(h) && exists|n: int| in_range(n, h) && d == #[trigger] int_data(h, n),
        Ty::Bool => d is Bool, Ty::Char => d is Char, Ty::Str => d is Str, Ty::Unit => d is Unit, Ty::UnitStruct(n) => d == Data::UnitStruct(n),
        Ty::Opt(t) => d is None || (d is Some && fits(*t, *d->Some_0)),
        Ty::Tuple(ts) => d is Tuple && fit_all(ts, d->Tuple_0),
        Ty::TupleStruct(n, ts) => d is TupleStruct && d->TupleStruct_0 == n && fit_all(ts, d->TupleStruct_1),
        Ty::Seq(t) => d is Seq && d->Seq_1.len() <= usize::MAX && d->Seq_0 == Some(d->Seq_1.len() as usize) && forall|i: int| 0 <= i < d->Seq_1.len() ==> fits(*t, #[trigger] d->Seq_1[i]),
        Ty::Map(t) => d is Map && d->Map_1.len() <= usize::MAX && d->Map_0 == Some(d->Map_1.len() as usize) && forall|i: int| 0 <= i < d->Map_1.len() ==> (#[trigger] d->Map_1[i]).0 is Str && fits(*t, d->Map_1[i].1),
        Ty::Struct(n, fs) => d is Struct && d->Struct_0 == n && fit_fields(fs, d->Struct_1),
        Ty::Enum(n, vs) => distinct(vs) && exists|k: int| 0 <= k < vs.len() && fits_variant(n, #[trigger] vs[k], d),
    }
}
pub open spec fn fit_all(ts: Seq<Ty>, ds: Seq<Data>) -> bool decreases ts { ts.len() == ds.len() && ts.len() <= usize::MAX && forall|i: int| 0 <= i < ts.len() ==> fits(#[trigger] ts[i], ds[i]) }
pub open spec fn fit_fields(fs: Seq<(Seq<char>, Ty)>, ds: Seq<(Seq<char>, Data)>) -> bool decreases fs { distinct(fs) && fs.len() == ds.len() && forall|i: int| 0 <= i < fs.len() ==> fits_field(#[trigger] fs[i], ds[i]) }
pub open spec fn fits_field(f: (Seq<char>, Ty), d: (Seq<char>, Data)) -> bool decreases f { f.0 == d.0 && fits(f.1, d.1) }
pub open spec fn fits_variant(n: Seq<char>, v: (Seq<char>, VTy), d: Data) -> bool decreases v {
    match v.1 { VTy::Unit => d == Data::UnitVariant(n, v.0), VTy::Tuple(ts) => d is TupleVariant && d->TupleVariant_0 == n && d->TupleVariant_1 == v.0 && fit_all(ts, d->TupleVariant_2),
        VTy::Struct(fs) => d is StructVariant && d->StructVariant_0 == n && d->StructVariant_1 == v.0 && fit_fields(fs, d->StructVariant_2) }
}
// the type's instance, as serde's implementations and its derive read it from what a value offers them
pub open spec fn asked(p: Part, h: Hint) -> Option<Offer> { if stated(p, h) { offer(p, h) } else { None } }
pub open spec fn read(t: Ty, p: Part) -> Option<Data> decreases t, 0int {
    match t {
        Ty::Int(h) => match asked(p, h) { Some(o) => match int_visitor(h, o) { Some(n) => Some(int_data(h, n)), None => None }, None => None },
        Ty::Bool => match asked(p, Hint::Bool) { Some(Offer::Bool(b)) => Some(Data::Bool(b)), _ => None },
        Ty::Char => match asked(p, Hint::Char) { Some(Offer::Char(c)) => Some(Data::Char(c)), _ => None },
        Ty::Str => match asked(p, Hint::String) { Some(Offer::Str(s)) => Some(Data::Str(s)), _ => None },
        Ty::Unit => match asked(p, Hint::Unit) { Some(Offer::Unit) => Some(Data::Unit), _ => None },
        Ty::UnitStruct(n) => match asked(p, Hint::UnitStruct) { Some(Offer::Unit) => Some(Data::UnitStruct(n)), _ => None },
        Ty::Opt(t) => match asked(p, Hint::Option) { Some(Offer::None) => Some(Data::None), Some(Offer::Some(q)) => match read(*t, q) { Some(d) => Some(Data::Some(Box::new(d))), None => None }, _ => None },
        Ty::Tuple(ts) => match asked(p, Hint::Tuple(ts.len() as usize)) { Some(Offer::Seq(ps)) => match read_all(ts, ps) { Some(ds) => Some(Data::Tuple(ds)), None => None }, _ => None },
        Ty::TupleStruct(n, ts) => match asked(p, Hint::TupleStruct(ts.len() as usize)) { Some(Offer::Seq(ps)) => match read_all(ts, ps) { Some(ds) => Some(Data::TupleStruct(n, ds)), None => None }, _ => None },
        Ty::Seq(t) => match asked(p, Hint::Seq) { Some(Offer::Seq(ps)) => match read_list(*t, ps) { Some(ds) => Some(Data::Seq(Some(ps.len() as usize), ds)), None => None }, _ => None },
        Ty::Map(t) => match asked(p, Hint::Map) { Some(Offer::Map(es)) => match read_entries(*t, es) { Some(ds) => Some(Data::Map(Some(es.len() as usize), ds)), None => None }, _ => None },
        Ty::Struct(n, fs) => match asked(p, Hint::Struct) { Some(Offer::Map(es)) => match read_fields(fs, es) { Some(ds) => Some(Data::Struct(n, ds)), None => None }, _ => None },
        Ty::Enum(n, vs) => match asked(p, Hint::Enum) { Some(Offer::Enum(name, c)) => if exists|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).0 == name { read_variant(n, vs, choose|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).0 == name, c) } else { None }, _ => None },
    }
}
pub open spec fn read_list(t: Ty, ps: Seq<Part>) -> Option<Seq<Data>> decreases t, 1int { if forall|i: int| 0 <= i < ps.len() ==> read(t, #[trigger] ps[i]) is Some { Some(Seq::new(ps.len(), |i: int| read(t, ps[i])->Some_0)) } else { None } }
pub open spec fn read_entries(t: Ty, es: Seq<(Seq<char>, Part)>) -> Option<Seq<(Data, Data)>> decreases t, 1int { if forall|i: int| 0 <= i < es.len() ==> read(t, (#[trigger] es[i]).1) is Some { Some(Seq::new(es.len(), |i: int| (Data::Str(es[i].0), read(t, es[i].1)->Some_0))) } else { None } }
pub open spec fn read_all(ts: Seq<Ty>, ps: Seq<Part>) -> Option<Seq<Data>> decreases ts, 0int {
    if ts.len() == ps.len() && forall|i: int| 0 <= i < ts.len() ==> read(#[trigger] ts[i], ps[i]) is Some { Some(Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { read(ts[i], ps[i])->Some_0 } else { arbitrary() })) } else { None }
}
// fields by name: each is there once; other entries are passed over
pub open spec fn only_entry(es: Seq<(Seq<char>, Part)>, name: Seq<char>, k: int) -> bool { 0 <= k < es.len() && es[k].0 == name && forall|j: int| 0 <= j < es.len() && j != k ==> (#[trigger] es[j]).0 != name }
pub open spec fn read_field(f: (Seq<char>, Ty), es: Seq<(Seq<char>, Part)>) -> Option<(Seq<char>, Data)> decreases f, 0int {
    if exists|k: int| only_entry(es, f.0, k) { match read(f.1, es[choose|k: int| only_entry(es, f.0, k)].1) { Some(d) => Some((f.0, d)), None => None } } else { None }
}
pub open spec fn read_fields(fs: Seq<(Seq<char>, Ty)>, es: Seq<(Seq<char>, Part)>) -> Option<Seq<(Seq<char>, Data)>> decreases fs, 0int {
    if forall|i: int| 0 <= i < fs.len() ==> read_field(#[trigger] fs[i], es) is Some { Some(Seq::new(fs.len(), |i: int| if 0 <= i < fs.len() { read_field(fs[i], es)->Some_0 } else { arbitrary() })) } else { None }
}
pub open spec fn read_variant(n: Seq<char>, vs: Seq<(Seq<char>, VTy)>, k: int, c: GC) -> Option<Data> decreases vs, 0int {
    if 0 <= k < vs.len() { read_vty(n, vs[k], c) } else { None }
}
pub open spec fn read_vty(n: Seq<char>, v: (Seq<char>, VTy), c: GC) -> Option<Data> decreases v, 0int {
    match v.1 {
        // what unit_variant, tuple_variant and struct_variant do with the values
        VTy::Unit => if contents(c).len() == 0 { Some(Data::UnitVariant(n, v.0)) } else { None },
        VTy::Tuple(ts) => match offer(Part::Comp(c), Hint::Tuple(ts.len() as usize)) { Some(Offer::Seq(ps)) => match read_all(ts, ps) { Some(ds) => Some(Data::TupleVariant(n, v.0, ds)), None => None }, _ => None },
        VTy::Struct(fs) => match comp_any(c) { Offer::Map(es) => match read_fields(fs, es) { Some(ds) => Some(Data::StructVariant(n, v.0, ds)), None => None }, _ => None },
    }
}
// to_values and its kin, item by item
proof fn values_each(xs: Seq<Data>) requires forall|i: int| 0 <= i < xs.len() ==> to_value(#[trigger] xs[i]) is Some ensures to_values(xs) is Some, to_values(xs)->Some_0.len() == xs.len(), forall|i: int| 0 <= i < xs.len() ==> to_value(#[trigger] xs[i]) == Some((to_values(xs)->Some_0)[i]) decreases xs.len()
{ if xs.len() > 0 { let p = xs.drop_last(); assert forall|i: int| 0 <= i < p.len() implies to_value(#[trigger] p[i]) is Some by { assert(p[i] == xs[i]); } values_each(p); assert(to_value(xs[xs.len() - 1]) is Some); assert forall|i: int| 0 <= i < xs.len() implies to_value(#[trigger] xs[i]) == Some((to_values(xs)->Some_0)[i]) by { if i < p.len() { assert(p[i] == xs[i]); } } } }
proof fn fields_each(xs: Seq<(Seq<char>, Data)>) requires forall|i: int| 0 <= i < xs.len() ==> to_value((#[trigger] xs[i]).1) is Some ensures to_fields(xs) is Some, to_fields(xs)->Some_0.len() == xs.len(), forall|i: int| 0 <= i < xs.len() ==> to_value((#[trigger] xs[i]).1) == Some((to_fields(xs)->Some_0)[i].1) && (to_fields(xs)->Some_0)[i].0 == xs[i].0 decreases xs.len()
{ if xs.len() > 0 { let p = xs.drop_last(); assert forall|i: int| 0 <= i < p.len() implies to_value((#[trigger] p[i]).1) is Some by { assert(p[i] == xs[i]); } fields_each(p); assert(to_value(xs[xs.len() - 1].1) is Some); assert forall|i: int| 0 <= i < xs.len() implies to_value((#[trigger] xs[i]).1) == Some((to_fields(xs)->Some_0)[i].1) && (to_fields(xs)->Some_0)[i].0 == xs[i].0 by { if i < p.len() { assert(p[i] == xs[i]); } } } }
proof fn entries_each(xs: Seq<(Data, Data)>) requires forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).0 is Str && to_value(xs[i].1) is Some ensures to_entries(xs) is Some, to_entries(xs)->Some_0.len() == xs.len(), forall|i: int| 0 <= i < xs.len() ==> to_value((#[trigger] xs[i]).1) == Some((to_entries(xs)->Some_0)[i].1) && xs[i].0 == Data::Str((to_entries(xs)->Some_0)[i].0) decreases xs.len()
{ if xs.len() > 0 { let p = xs.drop_last(); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 is Str && to_value(p[i].1) is Some by { assert(p[i] == xs[i]); } entries_each(p); let l = xs[xs.len() - 1]; assert(l.0 is Str && to_value(l.1) is Some); assert(key_of(to_value(l.0)) == Some(l.0->Str_0)); assert forall|i: int| 0 <= i < xs.len() implies to_value((#[trigger] xs[i]).1) == Some((to_entries(xs)->Some_0)[i].1) && xs[i].0 == Data::Str((to_entries(xs)->Some_0)[i].0) by { if i < p.len() { assert(p[i] == xs[i]); } } } }
proof fn wide_enough(h: Hint, n: int) requires numeric(h), in_range(n, h) ensures ({ let v = to_value(int_data(h, n)); v is Some && (v == Some(GV::Prim(GP::U128(n as u128))) || v == Some(GV::Prim(GP::I128(n as i128)))) && read(Ty::Int(h), Part::Val(v->Some_0)) == Some(int_data(h, n)) })
{ let v = to_value(int_data(h, n)); a_number_or_an_error(h, Part::Val(v->Some_0)); }

pub proof fn there_and_back(t: Ty, d: Data) requires fits(t, d) ensures to_value(d) is Some, read(t, Part::Val(to_value(d)->Some_0)) == Some(d) /*@ D04 */ decreases t, 0int
{
    match t {
        Ty::Int(h) => { let n = choose|n: int| in_range(n, h) && d == #[trigger] int_data(h, n); wide_enough(h, n); }
        Ty::Opt(t) => { opt_there(*t, d); }
        Ty::Tuple(ts) => { all_there(ts, d->Tuple_0); let vs = to_values(d->Tuple_0)->Some_0; assert(to_value(d) == Some(unnamed(vs))); assert(asked(Part::Val(unnamed(vs)), Hint::Tuple(ts.len() as usize)) == Some(Offer::Seq(vals(vs)))); }
        Ty::TupleStruct(n, ts) => { all_there(ts, d->TupleStruct_1); let vs = to_values(d->TupleStruct_1)->Some_0; assert(to_value(d) == Some(unnamed(vs))); assert(asked(Part::Val(unnamed(vs)), Hint::TupleStruct(ts.len() as usize)) == Some(Offer::Seq(vals(vs)))); }
        Ty::Seq(t) => { seq_there(*t, d); }
        Ty::Map(t) => { map_there(*t, d); }
        Ty::Struct(n, fs) => { fields_there(fs, d->Struct_1); let vs = to_fields(d->Struct_1)->Some_0; in_any_order(fs, d->Struct_1, vs); assert(asked(Part::Val(named(vs)), Hint::Struct) == Some(Offer::Map(named_vals(vs)))); }
        Ty::Enum(n, vs) => { enum_there(n, vs, d); }
        _ => {}
    }
}
proof fn opt_there(t: Ty, d: Data) requires fits(Ty::Opt(Box::new(t)), d) ensures to_value(d) is Some, read(Ty::Opt(Box::new(t)), Part::Val(to_value(d)->Some_0)) == Some(d) decreases t, 1int
{
    if d is Some {
        let x = *d->Some_0; there_and_back(t, x); let v = to_value(x)->Some_0; options(v);
        assert(to_value(d) == Some(GV::Var("Some"@, GC::Unnamed(seq![v]))));
        assert(asked(Part::Val(to_value(d)->Some_0), Hint::Option) == Some(Offer::Some(Part::Val(v))));
    } else { options(GV::Prim(GP::Bool(true))); assert(asked(Part::Val(to_value(d)->Some_0), Hint::Option) == Some(Offer::None)); }
}
proof fn seq_there(t: Ty, d: Data) requires fits(Ty::Seq(Box::new(t)), d) ensures to_value(d) is Some, read(Ty::Seq(Box::new(t)), Part::Val(to_value(d)->Some_0)) == Some(d) decreases t, 1int
{
    let xs = d->Seq_1;
    assert forall|i: int| 0 <= i < xs.len() implies to_value(#[trigger] xs[i]) is Some && read(t, Part::Val(to_value(xs[i])->Some_0)) == Some(xs[i]) by { there_and_back(t, xs[i]); }
    values_each(xs); let vs = to_values(xs)->Some_0; let ps = vals(vs);
    assert forall|i: int| 0 <= i < ps.len() implies read(t, #[trigger] ps[i]) == Some(xs[i]) by { assert(to_value(xs[i]) == Some(vs[i])); }
    assert(read_list(t, ps)->Some_0 =~= xs);
    assert(asked(Part::Val(unnamed(vs)), Hint::Seq) == Some(Offer::Seq(ps)));
}
proof fn map_there(t: Ty, d: Data) requires fits(Ty::Map(Box::new(t)), d) ensures to_value(d) is Some, read(Ty::Map(Box::new(t)), Part::Val(to_value(d)->Some_0)) == Some(d) decreases t, 1int
{
    let xs = d->Map_1;
    assert forall|i: int| 0 <= i < xs.len() implies (#[trigger] xs[i]).0 is Str && to_value(xs[i].1) is Some && read(t, Part::Val(to_value(xs[i].1)->Some_0)) == Some(xs[i].1) by { there_and_back(t, xs[i].1); }
    entries_each(xs); let vs = to_entries(xs)->Some_0; let es = named_vals(vs);
    assert forall|i: int| 0 <= i < es.len() implies read(t, (#[trigger] es[i]).1) == Some(xs[i].1) && xs[i].0 == Data::Str(es[i].0) by { assert(to_value(xs[i].1) == Some(vs[i].1)); }
    assert(read_entries(t, es)->Some_0 =~= xs);
    assert(asked(Part::Val(named(vs)), Hint::Map) == Some(Offer::Map(es)));
}
proof fn enum_there(n: Seq<char>, vs: Seq<(Seq<char>, VTy)>, d: Data) requires fits(Ty::Enum(n, vs), d) ensures to_value(d) is Some, read(Ty::Enum(n, vs), Part::Val(to_value(d)->Some_0)) == Some(d) decreases vs, 1int
{
    let k = choose|k: int| 0 <= k < vs.len() && fits_variant(n, #[trigger] vs[k], d);
    assert(fits_variant(n, vs[k], d));
    variant_there(n, vs[k], d);
    let g = to_value(d)->Some_0; let name = g->Var_0;
    assert(vs[k].0 == name);
    let j = choose|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).0 == name;
    assert(j == k) by { if j < k { assert(vs[j].0 != vs[k].0); } if k < j { assert(vs[k].0 != vs[j].0); } }
    assert(asked(Part::Val(g), Hint::Enum) == Some(Offer::Enum(name, g->Var_1)));
    assert(read_variant(n, vs, k, g->Var_1) == read_vty(n, vs[k], g->Var_1));
}
proof fn all_there(ts: Seq<Ty>, ds: Seq<Data>) requires fit_all(ts, ds) ensures ts.len() == ds.len(), ts.len() <= usize::MAX, to_values(ds) is Some, to_values(ds)->Some_0.len() == ds.len(), read_all(ts, vals(to_values(ds)->Some_0)) == Some(ds) decreases ts, 0int
{
    assert forall|i: int| 0 <= i < ds.len() implies to_value(#[trigger] ds[i]) is Some && read(ts[i], Part::Val(to_value(ds[i])->Some_0)) == Some(ds[i]) by { assert(fits(ts[i], ds[i])); there_and_back(ts[i], ds[i]); }
    values_each(ds); let vs = to_values(ds)->Some_0; let ps = vals(vs);
    assert forall|i: int| 0 <= i < ts.len() implies read(#[trigger] ts[i], ps[i]) == Some(ds[i]) by { assert(to_value(ds[i]) == Some(vs[i])); }
    assert(read_all(ts, ps)->Some_0 =~= ds);
}
proof fn fields_there(fs: Seq<(Seq<char>, Ty)>, ds: Seq<(Seq<char>, Data)>) requires fit_fields(fs, ds)
    ensures to_fields(ds) is Some, fields_of(fs, ds, to_fields(ds)->Some_0) decreases fs, 0int
{
    assert forall|i: int| 0 <= i < ds.len() implies to_value((#[trigger] ds[i]).1) is Some && read(fs[i].1, Part::Val(to_value(ds[i].1)->Some_0)) == Some(ds[i].1) by { assert(fits_field(fs[i], ds[i])); there_and_back(fs[i].1, ds[i].1); }
    fields_each(ds); let vs = to_fields(ds)->Some_0;
    assert forall|i: int| 0 <= i < fs.len() implies there(fs[i], #[trigger] ds[i], vs) by { assert(fits_field(fs[i], ds[i])); assert(to_value(ds[i].1) == Some(vs[i].1)); assert(field_at(fs[i], ds[i], vs, i)); }
    assert(distinct(vs)) by { assert forall|i: int, j: int| 0 <= i < j < vs.len() implies (#[trigger] vs[i]).0 != (#[trigger] vs[j]).0 by { assert(fits_field(fs[i], ds[i])); assert(fits_field(fs[j], ds[j])); assert(fs[i].0 != fs[j].0); assert(vs[i].0 == ds[i].0); } }
}
// every field's data is somewhere among these named values
pub open spec fn field_at(f: (Seq<char>, Ty), d: (Seq<char>, Data), vs: Seq<(Seq<char>, GV)>, k: int) -> bool { 0 <= k < vs.len() && d.0 == f.0 && vs[k].0 == f.0 && read(f.1, Part::Val(vs[k].1)) == Some(d.1) }
pub open spec fn fields_of(fs: Seq<(Seq<char>, Ty)>, ds: Seq<(Seq<char>, Data)>, vs: Seq<(Seq<char>, GV)>) -> bool { distinct(vs) && fs.len() == ds.len() && forall|i: int| 0 <= i < fs.len() ==> there(fs[i], #[trigger] ds[i], vs) }
pub open spec fn there(f: (Seq<char>, Ty), d: (Seq<char>, Data), vs: Seq<(Seq<char>, GV)>) -> bool { exists|k: int| field_at(f, d, vs, k) }
pub proof fn in_any_order(fs: Seq<(Seq<char>, Ty)>, ds: Seq<(Seq<char>, Data)>, vs: Seq<(Seq<char>, GV)>) requires fields_of(fs, ds, vs) ensures read_fields(fs, named_vals(vs)) == Some(ds) /*@ D04 */
{
    let es = named_vals(vs);
    assert forall|i: int| 0 <= i < fs.len() implies read_field(#[trigger] fs[i], es) == Some(ds[i]) by {
        assert(there(fs[i], ds[i], vs));
        let k = choose|k: int| field_at(fs[i], ds[i], vs, k);
        assert(only_entry(es, fs[i].0, k)) by { assert forall|j: int| 0 <= j < es.len() && j != k implies (#[trigger] es[j]).0 != fs[i].0 by { if j < k { assert(vs[j].0 != vs[k].0); } else { assert(vs[k].0 != vs[j].0); } } }
        let c = choose|k: int| only_entry(es, fs[i].0, k);
        assert(c == k) by { if c != k { assert(es[c].0 != fs[i].0); } }
    }
    assert(read_fields(fs, es)->Some_0 =~= ds);
}
proof fn variant_there(n: Seq<char>, v: (Seq<char>, VTy), d: Data) requires fits_variant(n, v, d) ensures to_value(d) is Some, to_value(d)->Some_0 is Var, to_value(d)->Some_0->Var_0 == v.0, read_vty(n, v, to_value(d)->Some_0->Var_1) == Some(d) decreases v, 0int
{
    match v.1 {
        VTy::Unit => {}
        VTy::Tuple(ts) => { all_there(ts, d->TupleVariant_2); }
        VTy::Struct(fs) => { fields_there(fs, d->StructVariant_2); in_any_order(fs, d->StructVariant_2, to_fields(d->StructVariant_2)->Some_0); }
    }
}
"""
D04 = D04.replace("INTDATA", " ".join(f"Hint::{t.upper()} => Data::{t.upper()}(n as {t})," for t in INTS))


def build(b):
    b.emit("use vstd::string::*;\n")
    for t in (GLUE, lib_serde.DATA, lib_serde.TO_VALUE, lib_serde.OUT_OF, lib_serde.OFFERS, lib_serde.SOURCES, D02, D05, D06, D07, D04):
        b.emit(t)
