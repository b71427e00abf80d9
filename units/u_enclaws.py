"""Laws of the encoding that scale_impls/encode.rs is proved to implement (S02, S06, S07, S08, S10, S11)."""
from units import lib_value, lib_scale, lib_encode, lib_decode
PROPS = ["S02", "S06", "S07", "S08", "S10", "S11"]

NUMBERS = """
// ---- numbers
proof fn pow_pos(k: nat) ensures pow256(k) >= 1 decreases k { if k > 0 { pow_pos((k - 1) as nat); } }
proof fn le_inverse(n: int, k: nat)
    requires 0 <= n < pow256(k) ensures le(n, k).len() == k, from_le(le(n, k)) == n decreases k
{
    if k > 0 {
        assert(0 <= n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires 0 <= n < 256 * pow256((k - 1) as nat);
        le_inverse(n / 256, (k - 1) as nat);
        let r = le(n / 256, (k - 1) as nat);
        assert((seq![(n % 256) as u8] + r).skip(1) =~= r);
        assert(le(n, k)[0] == (n % 256) as u8);
    }
}
proof fn powers()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000, pow256(16) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{
    reveal_with_fuel(pow256, 17);
    assert(pow256(1) == 256 && pow256(2) == 65536 && pow256(4) == 65536 * 65536 && pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(pow256(16) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000) by (compute);
}
proof fn half(p: PrimitiveType, n: int) requires num_range(p, n)
    ensures num_len(p) > 0, n >= 0 ==> n < pow256(num_len(p)), n < 0 ==> num_signed(p) && 0 <= n + pow256(num_len(p)) < pow256(num_len(p)),
        num_signed(p) && n >= 0 ==> n < pow256(num_len(p)) / 2, n < 0 ==> n + pow256(num_len(p)) >= pow256(num_len(p)) / 2
{ powers(); }
// S02: a number goes into a number type exactly when it is in the type's range; the bytes stand for that number and are as many as the type has
proof fn number_exact<T>(reg: Registry, v: Value<T>, n: int, id: TypeId, p: PrimitiveType)
    requires v.value == ValueDef::<T>::Primitive(Primitive::U128(n as u128)) && 0 <= n <= u128::MAX || v.value == ValueDef::<T>::Primitive(Primitive::I128(n as i128)) && i128::MIN <= n <= i128::MAX,
        reg.shape(narrow(reg, id)) == Ok::<Shape, ResolveError>(Shape::Primitive(p)), num_len(p) > 0
    ensures enc(reg, v, id) is Ok <==> num_range(p, n), /*@ S02 */
        num_range(p, n) ==> enc(reg, v, id)->Ok_0.len() == num_len(p) && num_of(p, enc(reg, v, id)->Ok_0) == n, /*@ S02 */
        num_range(p, n) && n >= 0 ==> enc(reg, v, id)->Ok_0 == le(n, num_len(p)), /*@ S02 */
{
    assert(enc(reg, v, id) == enc_num(reg, n, id));
    if num_range(p, n) { half(p, n); le_inverse(if n >= 0 { n } else { n + pow256(num_len(p)) }, num_len(p)); }
}
proof fn width_bound(n: int, k: nat) requires 0 <= n < pow256(k) ensures n < pow256(width(n)), width(n) <= k, n > 0 ==> pow256((width(n) - 1) as nat) <= n decreases k
{
    if n > 0 {
        if k == 0 { assert(false); }
        assert(0 <= n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires 0 <= n < 256 * pow256((k - 1) as nat);
        width_bound(n / 256, (k - 1) as nat);
        let w = width(n / 256);
        assert(n < 256 * pow256(w)) by (nonlinear_arith) requires n / 256 < pow256(w);
        if n / 256 > 0 { let w1 = (w - 1) as nat; assert(256 * pow256(w1) <= n) by (nonlinear_arith) requires pow256(w1) <= n / 256; assert(pow256(w) == 256 * pow256(w1)); }
        else { assert(w == 0); assert(pow256(0) == 1); }
    }
}
proof fn le_first(n: int, k: nat) requires n >= 0, k > 0 ensures le(n, k)[0] == n % 256 { }
proof fn compact_exact(n: int)
    requires 0 <= n <= u128::MAX
    ensures compact(n).len() == compact_len(compact(n)), compact_of(compact(n)) == n, /*@ S02 S07 */
        // canonical: the fewest bytes
        n < 64 ==> compact(n).len() == 1, 64 <= n < 0x4000 ==> compact(n).len() == 2, 0x4000 <= n < 0x4000_0000 ==> compact(n).len() == 4,
        n >= 0x4000_0000 ==> 4 <= width(n) <= 16 && compact(n).len() == 1 + width(n) && pow256((width(n) - 1) as nat) <= n < pow256(width(n)),
{
    powers();
    if n < 64 { assert(((4 * n) as u8) as int == 4 * n); }
    else if n < 0x4000 { le_inverse(4 * n + 1, 2); le_first(4 * n + 1, 2); assert((4 * n + 1) % 256 % 4 == 1); }
    else if n < 0x4000_0000 { le_inverse(4 * n + 2, 4); le_first(4 * n + 2, 4); assert((4 * n + 2) % 256 % 4 == 2); }
    else {
        width_bound(n, 16);
        if width(n) < 4 { assert(pow256(3) == 0x100_0000) by (compute); pow_mono(width(n), 3); }
        let w = width(n);
        assert(((4 * (w - 4) + 3) as u8) as int == 4 * (w - 4) + 3);
        le_inverse(n, w);
        let s = seq![(4 * (w - 4) + 3) as u8] + le(n, w);
        assert(s.skip(1) =~= le(n, w));
        assert(s[0] == (4 * (w - 4) + 3) as u8);
    }
}
proof fn pow_mono(a: nat, b: nat) requires a <= b ensures pow256(a) <= pow256(b) decreases b
{ if a < b { pow_mono(a, (b - 1) as nat); pow_pos((b - 1) as nat); } }
proof fn compact_number_exact<T>(reg: Registry, v: Value<T>, n: int, id: TypeId, c: TypeId, p: PrimitiveType)
    requires v.value == ValueDef::<T>::Primitive(Primitive::U128(n as u128)) && 0 <= n <= u128::MAX || v.value == ValueDef::<T>::Primitive(Primitive::I128(n as i128)) && i128::MIN <= n <= i128::MAX,
        reg.shape(narrow(reg, id)) == Ok::<Shape, ResolveError>(Shape::Compact(c)), reg.shape(narrow(reg, c)) == Ok::<Shape, ResolveError>(Shape::Primitive(p)), num_unsigned(p)
    ensures enc(reg, v, id) is Ok <==> num_range(p, n), /*@ S02 */
        num_range(p, n) ==> enc(reg, v, id)->Ok_0 == compact(n) && compact_of(enc(reg, v, id)->Ok_0) == n, /*@ S02 */
{
    assert(enc(reg, v, id) == enc_num(reg, n, id));
    if num_range(p, n) { compact_exact(n); }
}
proof fn others_exact<T>(reg: Registry, v: Value<T>, id: TypeId)
    ensures
        v.value is Primitive && v.value->Primitive_0 is Bool && enc(reg, v, id) is Ok ==> reg.shape(narrow(reg, id)) == Ok::<Shape, ResolveError>(Shape::Primitive(PrimitiveType::Bool)) && enc(reg, v, id)->Ok_0 == seq![if v.value->Primitive_0->Bool_0 { 1u8 } else { 0u8 }], /*@ S02 */
        v.value is Primitive && v.value->Primitive_0 is String && enc(reg, v, id) is Ok ==> enc(reg, v, id)->Ok_0 == compact(encode_utf8(v.value->Primitive_0->String_0@).len() as int) + encode_utf8(v.value->Primitive_0->String_0@), /*@ S02 */
        v.value is Primitive && v.value->Primitive_0 is Char && reg.shape(same_repr(reg, id)) == Ok::<Shape, ResolveError>(Shape::Primitive(PrimitiveType::Char)) ==> enc(reg, v, id) == Ok::<Seq<u8>, Error>(le(v.value->Primitive_0->Char_0 as int, 4)), /*@ S02 */
        v.value is Primitive && v.value->Primitive_0 is Char && reg.shape(same_repr(reg, id)) != Ok::<Shape, ResolveError>(Shape::Primitive(PrimitiveType::Char)) ==> enc(reg, v, id) == enc_num(reg, v.value->Primitive_0->Char_0 as int, id), /*@ S02 */
{ }
"""

COMPOSITES = """
// ---- composites
pub open spec fn ok_same(a: EncR, b: EncR) -> bool { a is Ok == b is Ok && (a is Ok ==> a == b) }
// S06: when all attempts fail, the error is that of the first one
proof fn first_error<T>(reg: Registry, c: Composite<T>, id: TypeId) ensures enc_comp(reg, c, id) is Err ==> enc_comp(reg, c, id) == plain(reg, c, id), /*@ S06 */ { }

// S07: the encodings of all items, in order
pub open spec fn all_encoded<T>(reg: Registry, c: Composite<T>, t: TypeId, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { all_encoded(reg, c, t, (n - 1) as nat) + enc(reg, item(c, n - 1), t)->Ok_0 } }
pub open spec fn each_ok<T>(reg: Registry, c: Composite<T>, t: TypeId, n: nat) -> bool { forall|i: int| 0 <= i < n ==> enc(reg, #[trigger] item(c, i), t) is Ok }
proof fn items_named<T>(reg: Registry, v: Vec<(String, Value<T>)>, t: TypeId, byname: bool, n: nat, m: nat) requires n <= m == v@.len()
    ensures ({ let c = Composite::Named(v); let r = named_upto(reg, v, repeat(m, t), byname, n); (r is Ok <==> each_ok(reg, c, t, n)) && (r is Ok ==> r->Ok_0 == all_encoded(reg, c, t, n)) }) decreases n
{ if n > 0 { let c = Composite::Named(v); items_named(reg, v, t, byname, (n - 1) as nat, m); assert(item(c, n - 1) == v@[n - 1].1);
    if each_ok(reg, c, t, n) { assert(enc(reg, item(c, n - 1), t) is Ok); assert(each_ok(reg, c, t, (n - 1) as nat)); }
    if named_upto(reg, v, repeat(m, t), byname, n) is Ok { assert(each_ok(reg, c, t, (n - 1) as nat)); } } }
proof fn items_unnamed<T>(reg: Registry, v: Vec<Value<T>>, t: TypeId, n: nat, m: nat) requires n <= m == v@.len()
    ensures ({ let c = Composite::Unnamed(v); let r = unnamed_upto(reg, v, repeat(m, t), n); (r is Ok <==> each_ok(reg, c, t, n)) && (r is Ok ==> r->Ok_0 == all_encoded(reg, c, t, n)) }) decreases n
{ if n > 0 { let c = Composite::Unnamed(v); items_unnamed(reg, v, t, (n - 1) as nat, m); assert(item(c, n - 1) == v@[n - 1]);
    if each_ok(reg, c, t, n) { assert(enc(reg, item(c, n - 1), t) is Ok); assert(each_ok(reg, c, t, (n - 1) as nat)); }
    if unnamed_upto(reg, v, repeat(m, t), n) is Ok { assert(each_ok(reg, c, t, (n - 1) as nat)); } } }
proof fn items_all<T>(reg: Registry, c: Composite<T>, t: TypeId, byname: bool)
    ensures ({ let r = enc_items(reg, c, repeat(count(c), t), byname); (r is Ok <==> each_ok(reg, c, t, count(c))) && (r is Ok ==> r->Ok_0 == all_encoded(reg, c, t, count(c))) })
{ match c { Composite::Named(v) => items_named(reg, v, t, byname, v@.len(), v@.len()), Composite::Unnamed(v) => items_unnamed(reg, v, t, v@.len(), v@.len()) } }
proof fn to_sequence<T>(reg: Registry, c: Composite<T>, id: TypeId, t: TypeId)
    requires reg.shape(id) == Ok::<Shape, ResolveError>(Shape::Sequence(t)), count(c) <= u32::MAX
    ensures each_ok(reg, c, t, count(c)) ==> enc_comp(reg, c, id) == Ok::<Seq<u8>, Error>(compact(count(c) as int) + all_encoded(reg, c, t, count(c))), /*@ S07 */
        // without unwrapping there is no other way in
        !each_ok(reg, c, t, count(c)) && count(c) != 1 ==> enc_comp(reg, c, id) is Err, /*@ S07 */
{ items_all(reg, c, t, true); }
proof fn to_array<T>(reg: Registry, c: Composite<T>, id: TypeId, t: TypeId, n: int)
    requires reg.shape(id) == Ok::<Shape, ResolveError>(Shape::Array(t, n)), 0 <= n <= usize::MAX, reg.ranked()
    ensures count(c) == n && each_ok(reg, c, t, count(c)) ==> enc_comp(reg, c, id) == Ok::<Seq<u8>, Error>(all_encoded(reg, c, t, count(c))), /*@ S07 */
        count(c) != n && count(c) != 1 && n != 1 ==> enc_comp(reg, c, id) == Err::<Seq<u8>, Error>(err_new(ErrorKind::WrongLength { actual_len: count(c) as usize, expected_len: n as usize })), /*@ S07 */
        count(c) != n && enc_comp(reg, c, id) is Err ==> enc_comp(reg, c, id) == Err::<Seq<u8>, Error>(err_new(ErrorKind::WrongLength { actual_len: count(c) as usize, expected_len: n as usize })), /*@ S07 */
{ items_all(reg, c, t, false); }

// S08
proof fn nonbit_first<T>(v: Seq<Value<T>>, n: nat) requires n <= v.len()
    ensures match first_nonbit(v, n) { None => forall|i: int| 0 <= i < n ==> bit_of(#[trigger] v[i]) is Some, Some(k) => 0 <= k < n && bit_of(v[k]) is None && forall|i: int| 0 <= i < k ==> bit_of(#[trigger] v[i]) is Some } decreases n
{ if n > 0 { nonbit_first(v, (n - 1) as nat); } }
proof fn to_bits<T>(reg: Registry, c: Composite<T>, id: TypeId, s: BitsStoreFormat, o: BitsOrderFormat)
    requires reg.shape(id) == Ok::<Shape, ResolveError>(Shape::BitSequence(s, o))
    ensures
        // all bits: these bits in order
        (forall|i: int| 0 <= i < count(c) ==> bit_of(#[trigger] item(c, i)) is Some) ==> enc_comp(reg, c, id) == Ok::<Seq<u8>, Error>(bits_bytes(Seq::new(count(c), |i: int| bit_of(item(c, i))->Some_0), s, o)), /*@ S08 */
        // the first that is not one: an error there
        forall|k: int| 0 <= k < count(c) && bit_of(item(c, k)) is None && (forall|i: int| 0 <= i < k ==> bit_of(#[trigger] item(c, i)) is Some) && (#[trigger] enc_comp(reg, c, id)) is Err && #[trigger] at(k) ==> enc_comp(reg, c, id) == Err::<Seq<u8>, Error>(at_idx(err_custom(nonbit_text()), k)), /*@ S08 */
        // and it is an error, unless the list is a wrapper around something that is a bit sequence
        count(c) != 1 && (exists|k: int| 0 <= k < count(c) && bit_of(#[trigger] item(c, k)) is None) ==> enc_comp(reg, c, id) is Err, /*@ S08 */
{
    let v = vals_of(c);
    nonbit_first(v, count(c));
    assert forall|i: int| 0 <= i < count(c) implies #[trigger] item(c, i) == v[i] by { }
    if first_nonbit(v, count(c)) is None { assert(bits_upto(v, count(c)) =~= Seq::new(count(c), |i: int| bit_of(item(c, i))->Some_0)); }
    else { let k0 = first_nonbit(v, count(c))->Some_0; assert(item(c, k0) == v[k0]);
        assert forall|k: int| 0 <= k < count(c) && bit_of(item(c, k)) is None && (forall|i: int| 0 <= i < k ==> bit_of(#[trigger] item(c, i)) is Some) && #[trigger] at(k) implies k == k0 by { assert(item(c, k) == v[k]); } }
}
pub open spec fn at(k: int) -> bool { true }
proof fn bits_to_bits<T>(reg: Registry, v: Value<T>, id: TypeId, s: BitsStoreFormat, o: BitsOrderFormat)
    requires v.value is BitSequence, reg.shape(narrow(reg, id)) == Ok::<Shape, ResolveError>(Shape::BitSequence(s, o))
    ensures enc(reg, v, id) == Ok::<Seq<u8>, Error>(bits_bytes(v.value->BitSequence_0.bits(), s, o)), /*@ S08 */
{ }
"""

WRAPPERS = """
// ---- S10: a wrapper type
pub open spec fn wraps(reg: Registry, w: TypeId, t: TypeId) -> bool { single(reg, w) == Some(t) }
pub open spec fn by_struct_or_tuple(reg: Registry, w: TypeId) -> bool { reg.shape(w) is Ok && (reg.shape(w)->Ok_0 is Composite || reg.shape(w)->Ok_0 is Tuple) }
proof fn below(reg: Registry, w: TypeId, t: TypeId) requires reg.ranked(), wraps(reg, w, t)
    ensures same_repr(reg, w) == same_repr(reg, t), by_struct_or_tuple(reg, w) ==> narrow(reg, w) == narrow(reg, t)
{ assert(single(reg, w) is Some); }
// everything but composites (and 256-bit numbers, which go by scale_encode's arrays)
proof fn wrapped_type_simple<T>(reg: Registry, v: Value<T>, w: TypeId, t: TypeId)
    requires reg.ranked(), wraps(reg, w, t), by_struct_or_tuple(reg, w), !(v.value is Composite), v.value is Primitive ==> !(v.value->Primitive_0 is U256) && !(v.value->Primitive_0 is I256)
    ensures enc(reg, v, w) == enc(reg, v, t), /*@ S10 */
{ below(reg, w, t); }
// no wrapper on the way down is named like one of the value's fields
pub open spec fn clear<T>(reg: Registry, c: Composite<T>, id: TypeId) -> bool decreases reg.rank(id) {
    match single(reg, id) {
        Some(t) => (match reg.shape(id) { Ok(Shape::Composite(fs)) => c is Named && count(c) > 0 && fs[0].name is Some ==> last_named(c->Named_0@, fs[0].name->Some_0, count(c)) is None, _ => true }) && reg.rank(t) < reg.rank(id) && clear(reg, c, t),
        None => true,
    }
}
// scale_encode finds nothing for several items (or none) in a wrapper, other than what is below it
proof fn several_below<T>(reg: Registry, c: Composite<T>, id: TypeId)
    requires reg.ranked(), count(c) != 1, clear(reg, c, id)
    ensures skip_unnamed(reg, id) == id || (single_unnamed(reg, id) is Some),
        single(reg, id) is Some ==> sc_comp(reg, c, id) is Err || sc_comp(reg, c, id) == plain(reg, c, same_repr(reg, id)),
        single(reg, id) is None ==> same_repr(reg, id) == id && skip_unnamed(reg, id) == id,
    decreases reg.rank(id)
{
    if single(reg, id) is Some {
        let t = single(reg, id)->Some_0;
        assert(reg.rank(t) < reg.rank(id));
        several_below(reg, c, t);
        below(reg, id, t);
        if single_unnamed(reg, id) is Some {
            assert(single_unnamed(reg, id) == Some(t));
            assert(skip_unnamed(reg, id) == skip_unnamed(reg, t));
            assert(sc_comp(reg, c, id) == sc_comp(reg, c, t));
            if single(reg, t) is None {
                assert(same_repr(reg, t) == t);
                assert(skip_unnamed(reg, t) == t);
            }
        } else {
            // an array, or a struct with one named field
            assert(skip_unnamed(reg, id) == id);
            if reg.shape(id)->Ok_0 is Composite {
                let fs = reg.shape(id)->Ok_0->Composite_0;
                assert(fs[0].name is Some);
                assert(any_named(fs));
                if c is Named && count(c) > 0 {
                    let v = c->Named_0;
                    assert(fields_by_name(reg, v, fs, 0) is Ok);
                    assert(last_named(v@, or_empty(fs[0].name), v@.len()) is None);
                    assert(fields_by_name(reg, v, fs, 1) is Err);
                }
            }
        }
    }
}
// so what several items are encoded to depends on what is below the wrappers only
proof fn several_items<T>(reg: Registry, c: Composite<T>, id: TypeId)
    requires reg.ranked(), count(c) != 1, clear(reg, c, id)
    ensures ok_same(enc_comp(reg, c, id), plain(reg, c, same_repr(reg, id))),
{ several_below(reg, c, id); }
proof fn wrapped_type_several<T>(reg: Registry, v: Value<T>, w: TypeId, t: TypeId)
    requires reg.ranked(), wraps(reg, w, t), v.value is Composite, count(v.value->Composite_0) != 1, clear(reg, v.value->Composite_0, w)
    ensures ok_same(enc(reg, v, w), enc(reg, v, t)), clear(reg, v.value->Composite_0, t), /*@ S10 */
{ let c = v.value->Composite_0; below(reg, w, t); several_items(reg, c, w); several_items(reg, c, t); }
// any number of wrappers
pub open spec fn wrapped(reg: Registry, w: TypeId, t: TypeId, n: nat) -> bool decreases n { if n == 0 { w == t } else { single(reg, w) is Some && wrapped(reg, single(reg, w)->Some_0, t, (n - 1) as nat) } }
pub open spec fn no_arrays(reg: Registry, w: TypeId, n: nat) -> bool decreases n { n == 0 || by_struct_or_tuple(reg, w) && single(reg, w) is Some && no_arrays(reg, single(reg, w)->Some_0, (n - 1) as nat) }
proof fn wrapped_type<T>(reg: Registry, v: Value<T>, w: TypeId, t: TypeId, n: nat)
    requires reg.ranked(), wrapped(reg, w, t, n), v.value is Primitive ==> !(v.value->Primitive_0 is U256) && !(v.value->Primitive_0 is I256),
        !(v.value is Composite) ==> no_arrays(reg, w, n), v.value is Composite ==> count(v.value->Composite_0) != 1 && clear(reg, v.value->Composite_0, w)
    ensures ok_same(enc(reg, v, w), enc(reg, v, t)), /*@ S10 */
    decreases n
{
    if n > 0 {
        let u = single(reg, w)->Some_0;
        if v.value is Composite { wrapped_type_several(reg, v, w, u); } else { wrapped_type_simple(reg, v, w, u); }
        wrapped_type(reg, v, u, t, (n - 1) as nat);
    }
}

// ---- S10: a wrapped value
pub open spec fn names_free<T>(c: Composite<T>, fs: Seq<SField>) -> bool { c is Named ==> forall|i: int| 0 <= i < fs.len() ==> or_empty((#[trigger] fs[i]).name) != c->Named_0@[0].0@ }
pub open spec fn wrap_target<T>(reg: Registry, c: Composite<T>, id: TypeId) -> bool {
    match reg.shape(id) { Ok(Shape::Primitive(_)) | Ok(Shape::Compact(_)) | Ok(Shape::Variant(_)) => true, Ok(Shape::Composite(fs)) => fs.len() > 1 && names_free(c, fs), Ok(Shape::Tuple(ts)) => ts.len() > 1, _ => false }
}
proof fn fields_err<T>(reg: Registry, v: Vec<(String, Value<T>)>, fs: Seq<SField>, n: nat) requires 0 < n <= fs.len(), v@.len() == 1, or_empty(fs[0].name) != v@[0].0@ ensures fields_by_name(reg, v, fs, n) is Err decreases n
{ if n > 1 { fields_err(reg, v, fs, (n - 1) as nat); } else { assert(fields_by_name(reg, v, fs, 0) is Ok); assert(last_named(v@, or_empty(fs[0].name), 1) == last_named(v@, or_empty(fs[0].name), 0) || true); reveal_with_fuel(last_named, 3); } }
proof fn wrapped_value<T>(reg: Registry, v: Value<T>, id: TypeId)
    requires reg.ranked(), v.value is Composite, count(v.value->Composite_0) == 1, wrap_target(reg, v.value->Composite_0, id)
    ensures ok_same(enc(reg, v, id), enc(reg, item(v.value->Composite_0, 0), id)), /*@ S10 */
{
    let c = v.value->Composite_0;
    let x = item(c, 0);
    assert(single(reg, id) is None);
    assert(same_repr(reg, id) == id);
    assert(skip_unnamed(reg, id) == id);
    assert(enc_only(reg, c, id) == enc(reg, x, id));
    match reg.shape(id) {
        Ok(Shape::Composite(fs)) => { if c is Named { assert(fs[0] == fs[0]); if any_named(fs) { fields_err(reg, c->Named_0, fs, fs.len()); } assert(enc_fields(reg, c, fs) is Err); assert(sc_comp(reg, c, id) is Err); assert(plain(reg, c, id) is Err); } else { assert(sc_comp(reg, c, id) == enc_only(reg, c, id)); assert(plain(reg, c, id) == enc_only(reg, c, id)); } },
        Ok(Shape::Tuple(ts)) => { assert(sc_comp(reg, c, id) == enc_only(reg, c, id)); assert(plain(reg, c, id) == enc_only(reg, c, id)); },
        _ => { assert(plain(reg, c, id) == enc_only(reg, c, id)); },
    }
}
pub open spec fn deep<T>(reg: Registry, v: Value<T>, id: TypeId, n: nat) -> bool decreases n { n == 0 || v.value is Composite && count(v.value->Composite_0) == 1 && wrap_target(reg, v.value->Composite_0, id) && deep(reg, item(v.value->Composite_0, 0), id, (n - 1) as nat) }
pub open spec fn inside<T>(v: Value<T>, n: nat) -> Value<T> decreases n { if n == 0 { v } else { inside(item(v.value->Composite_0, 0), (n - 1) as nat) } }
proof fn wrapped_value_any<T>(reg: Registry, v: Value<T>, id: TypeId, n: nat)
    requires reg.ranked(), deep(reg, v, id, n)
    ensures ok_same(enc(reg, v, id), enc(reg, inside(v, n), id)), /*@ S10 */
    decreases n
{ if n > 0 { wrapped_value(reg, v, id); wrapped_value_any(reg, item(v.value->Composite_0, 0), id, (n - 1) as nat); } }

// ---- S11: by a list of fields, and by the struct type with these fields
proof fn fields_like_struct<T>(reg: Registry, v: Value<T>, id: TypeId, fs: Seq<SField>)
    requires reg.ranked(), v.value is Composite, reg.shape(id) == Ok::<Shape, ResolveError>(Shape::Composite(fs)),
        // one item and one field, of which only one is named, are a matter of unwrapping
        fs.len() == 1 && count(v.value->Composite_0) == 1 ==> (v.value->Composite_0 is Named) == (fs[0].name is Some)
    ensures enc_fields(reg, v.value->Composite_0, fs) is Ok ==> enc(reg, v, id) == enc_fields(reg, v.value->Composite_0, fs), /*@ S11 */
{
    let c = v.value->Composite_0;
    if enc_fields(reg, c, fs) is Ok {
        if fs.len() == 1 && fs[0].name is None {
            assert(!any_named(fs));
            if count(c) == 1 { assert(single_unnamed(reg, id) is Some);
                let x = c->Unnamed_0;
                assert(unnamed_upto(reg, x, ids(fs), 0) is Ok);
                assert(ids(fs)[0] == fs[0].id);
                assert(enc_items(reg, c, ids(fs), true) == unnamed_upto(reg, x, ids(fs), 1));
                assert(Seq::<u8>::empty() + enc(reg, x@[0], fs[0].id)->Ok_0 =~= enc(reg, x@[0], fs[0].id)->Ok_0);
                assert(enc_only(reg, c, fs[0].id) == enc_fields(reg, c, fs)); }
        } else {
            assert(single_unnamed(reg, id) is None);
            assert(skip_unnamed(reg, id) == id);
            if fs.len() == 1 { assert(any_named(fs)); }
            assert(!(c is Unnamed && count(c) == 1));
            assert(sc_comp(reg, c, id) == enc_fields(reg, c, fs));
            assert(plain(reg, c, id) is Ok);
        }
    }
}
// by name when named: each field of the type gets the (last) item with its name; by position otherwise
proof fn fields_meaning<T>(reg: Registry, c: Composite<T>, fs: Seq<SField>)
    ensures c is Named && count(c) > 0 && any_named(fs) ==> enc_fields(reg, c, fs) == fields_by_name(reg, c->Named_0, fs, fs.len()), /*@ S11 */
        !(c is Named && count(c) > 0 && any_named(fs)) && count(c) == fs.len() ==> enc_fields(reg, c, fs) == enc_items(reg, c, ids(fs), true), /*@ S11 */
        !(c is Named && count(c) > 0 && any_named(fs)) && count(c) != fs.len() ==> enc_fields(reg, c, fs) is Err, /*@ S11 */
{ }
"""


def build(b):
    lib_value.types(b)
    b.emit("use vstd::utf8::*;\nuse vstd::string::*;\n")
    b.emit(lib_scale.REGISTRY)
    b.emit(lib_encode.SPEC)
    b.emit(lib_decode.BYTES)
    b.emit(NUMBERS + COMPOSITES + WRAPPERS)
