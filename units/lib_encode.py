"""What encoding means: the specification of the encoder, and the contracts of scale_encode that it rests on."""

SPEC = r"""
// ---- scale_encode's errors, and what its own code reports
#[verifier::external_body]
pub struct Error { k: u8 }
pub enum Kind { Struct, Tuple, Variant, Array, BitSequence, Bool, Char, Str, Number }
pub enum ErrorKind { TypeResolvingError(String), WrongShape { actual: Kind, expected_id: String }, WrongLength { actual_len: usize, expected_len: usize } }
pub uninterp spec fn err_new(k: ErrorKind) -> Error;
pub uninterp spec fn err_custom(s: Seq<char>) -> Error;
pub uninterp spec fn at_idx(e: Error, i: int) -> Error;
pub uninterp spec fn at_field(e: Error, n: Seq<char>) -> Error;
impl Error {
    #[verifier::external_body]
    pub fn new(kind: ErrorKind) -> (r: Error) ensures r == err_new(kind) { unimplemented!() }
    #[verifier::external_body]
    pub fn custom_str(s: &'static str) -> (r: Error) ensures r == err_custom(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_idx(self, i: usize) -> (r: Error) ensures r == at_idx(self, i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_field(self, n: String) -> (r: Error) ensures r == at_field(self, n@) { unimplemented!() }
}
pub enum ScErr { Shape(Kind, TypeId), Length(int, int), NotFound(TypeId), Field(Seq<char>), Variant(Seq<char>, TypeId), Range(int, TypeId), Resolve(ResolveError) }
pub uninterp spec fn sc_err(e: ScErr) -> Error;

// bytes, or an error
pub type EncR = Result<Seq<u8>, Error>;
pub open spec fn then(a: EncR, b: EncR) -> EncR { match a { Err(e) => Err(e), Ok(x) => match b { Err(e) => Err(e), Ok(y) => Ok(x + y) } } }

// ---- bytes of numbers
pub open spec fn le(n: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) } }
// the fewest bytes that hold n
pub open spec fn width(n: int) -> nat decreases n { if n <= 0 { 0 } else { 1 + width(n / 256) } }
// a compact number
pub open spec fn compact(n: int) -> Seq<u8> {
    if n < 64 { seq![(4 * n) as u8] } else if n < 0x4000 { le(4 * n + 1, 2) } else if n < 0x4000_0000 { le(4 * n + 2, 4) }
    else { seq![(4 * (width(n) - 4) + 3) as u8] + le(n, width(n)) }
}
pub struct Compact(pub u32);
impl Compact {
    #[verifier::external_body]
    pub fn encode_to(&self, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + compact(self.0 as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn u32_encode_to(n: u32, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + le(n as int, 4) { unimplemented!() }
#[verifier::external_body]
pub fn append(out: &mut Vec<u8>, x: &Vec<u8>) ensures final(out)@ == old(out)@ + x@ { out.extend_from_slice(x) }
pub open spec fn starts(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) =~= a }

// ---- primitives, as scale_encode encodes them: wrapper structs and tuples are skipped first
pub open spec fn narrow(reg: Registry, id: TypeId) -> TypeId decreases reg.rank(id) {
    if reg.shape(id) is Ok && reg.shape(id)->Ok_0 is Array { id } else { match single(reg, id) { Some(t) => if reg.rank(t) < reg.rank(id) { narrow(reg, t) } else { id }, None => id } }
}
pub open spec fn num_len(p: PrimitiveType) -> nat { match p { PrimitiveType::U8 | PrimitiveType::I8 => 1, PrimitiveType::U16 | PrimitiveType::I16 => 2, PrimitiveType::U32 | PrimitiveType::I32 => 4,
    PrimitiveType::U64 | PrimitiveType::I64 => 8, PrimitiveType::U128 | PrimitiveType::I128 => 16, _ => 0 } }
pub open spec fn num_unsigned(p: PrimitiveType) -> bool { p is U8 || p is U16 || p is U32 || p is U64 || p is U128 }
pub open spec fn num_signed(p: PrimitiveType) -> bool { p is I8 || p is I16 || p is I32 || p is I64 || p is I128 }
pub open spec fn num_range(p: PrimitiveType, n: int) -> bool { match p {
    PrimitiveType::U8 => 0 <= n <= u8::MAX, PrimitiveType::U16 => 0 <= n <= u16::MAX, PrimitiveType::U32 => 0 <= n <= u32::MAX, PrimitiveType::U64 => 0 <= n <= u64::MAX, PrimitiveType::U128 => 0 <= n <= u128::MAX,
    PrimitiveType::I8 => i8::MIN <= n <= i8::MAX, PrimitiveType::I16 => i16::MIN <= n <= i16::MAX, PrimitiveType::I32 => i32::MIN <= n <= i32::MAX, PrimitiveType::I64 => i64::MIN <= n <= i64::MAX, PrimitiveType::I128 => i128::MIN <= n <= i128::MAX,
    _ => false } }
pub open spec fn pow256(k: nat) -> int decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
// two's complement
pub open spec fn num_bytes(p: PrimitiveType, n: int) -> Seq<u8> { if n >= 0 { le(n, num_len(p)) } else { le(n + pow256(num_len(p)), num_len(p)) } }
pub open spec fn enc_num(reg: Registry, n: int, id: TypeId) -> EncR {
    let t = narrow(reg, id);
    match reg.shape(t) {
        Err(e) => Err(sc_err(ScErr::Resolve(e))),
        Ok(Shape::NotFound) => Err(sc_err(ScErr::NotFound(t))),
        Ok(Shape::Primitive(p)) => if num_len(p) == 0 { Err(sc_err(ScErr::Shape(Kind::Number, t))) } else if num_range(p, n) { Ok(num_bytes(p, n)) } else { Err(sc_err(ScErr::Range(n, t))) },
        Ok(Shape::Compact(c)) => { let u = narrow(reg, c); match reg.shape(u) {
            Err(e) => Err(sc_err(ScErr::Resolve(e))),
            Ok(Shape::Primitive(p)) => if !num_unsigned(p) { Err(sc_err(ScErr::Shape(Kind::Number, u))) } else if num_range(p, n) { Ok(compact(n)) } else { Err(sc_err(ScErr::Range(n, u))) },
            _ => Err(sc_err(ScErr::Shape(Kind::Number, u))),
        } },
        _ => Err(sc_err(ScErr::Shape(Kind::Number, t))),
    }
}
pub open spec fn enc_bool(reg: Registry, b: bool, id: TypeId) -> EncR {
    let t = narrow(reg, id);
    match reg.shape(t) {
        Err(e) => Err(sc_err(ScErr::Resolve(e))),
        Ok(Shape::NotFound) => Err(sc_err(ScErr::NotFound(t))),
        Ok(Shape::Primitive(PrimitiveType::Bool)) => Ok(seq![if b { 1u8 } else { 0u8 }]),
        _ => Err(sc_err(ScErr::Shape(Kind::Bool, t))),
    }
}
pub open spec fn enc_str(reg: Registry, s: Seq<char>, id: TypeId) -> EncR {
    let t = narrow(reg, id);
    match reg.shape(t) {
        Err(e) => Err(sc_err(ScErr::Resolve(e))),
        Ok(Shape::NotFound) => Err(sc_err(ScErr::NotFound(t))),
        Ok(Shape::Primitive(PrimitiveType::Str)) => Ok(compact(encode_utf8(s).len() as int) + encode_utf8(s)),
        _ => Err(sc_err(ScErr::Shape(Kind::Str, t))),
    }
}
// a 256-bit number is encoded as the array of its 32 bytes
pub uninterp spec fn enc_array32(reg: Registry, b: Seq<u8>, id: TypeId) -> EncR;
// bits in a store and order format, as scale_bits writes them
pub uninterp spec fn bits_bytes(b: Seq<bool>, s: BitsStoreFormat, o: BitsOrderFormat) -> Seq<u8>;
pub open spec fn enc_bits(reg: Registry, b: Seq<bool>, id: TypeId) -> EncR {
    let t = narrow(reg, id);
    match reg.shape(t) {
        Err(e) => Err(sc_err(ScErr::Resolve(e))),
        Ok(Shape::BitSequence(s, o)) => Ok(bits_bytes(b, s, o)),
        _ => Err(sc_err(ScErr::Shape(Kind::BitSequence, t))),
    }
}
// in our own code: a char is written to a char type (below wrappers, arrays of one included) as its code point; anything else is a number
pub open spec fn enc_char(reg: Registry, c: char, id: TypeId) -> EncR {
    match reg.shape(same_repr(reg, id)) { Ok(Shape::Primitive(PrimitiveType::Char)) => Ok(le(c as int, 4)), _ => enc_num(reg, c as int, id) }
}
pub open spec fn enc_prim(reg: Registry, p: Primitive, id: TypeId) -> EncR {
    match p {
        Primitive::Bool(b) => enc_bool(reg, b, id),
        Primitive::Char(c) => enc_char(reg, c, id),
        Primitive::String(s) => enc_str(reg, s@, id),
        Primitive::U128(n) => enc_num(reg, n as int, id),
        Primitive::I128(n) => enc_num(reg, n as int, id),
        Primitive::U256(b) => enc_array32(reg, b@, id),
        Primitive::I256(b) => enc_array32(reg, b@, id),
    }
}

// ---- composites
pub open spec fn repeat(n: nat, t: TypeId) -> Seq<TypeId> { Seq::new(n, |i: int| t) }
pub open spec fn count<T>(c: Composite<T>) -> nat { match c { Composite::Named(v) => v@.len(), Composite::Unnamed(v) => v@.len() } }
pub open spec fn item<T>(c: Composite<T>, i: int) -> Value<T> { match c { Composite::Named(v) => v@[i].1, Composite::Unnamed(v) => v@[i] } }
pub open spec fn name_of<T>(c: Composite<T>, i: int) -> Option<Seq<char>> { match c { Composite::Named(v) => Some(v@[i].0@), Composite::Unnamed(v) => None } }
// the field of a struct or tuple type with just one, unnamed, field
pub open spec fn single_unnamed(reg: Registry, id: TypeId) -> Option<TypeId> {
    match reg.shape(id) {
        Ok(Shape::Tuple(ts)) => if ts.len() == 1 { Some(ts[0]) } else { None },
        Ok(Shape::Composite(fs)) => if fs.len() == 1 && fs[0].name is None { Some(fs[0].id) } else { None },
        _ => None,
    }
}
// scale_encode skips through all of these
pub open spec fn skip_unnamed(reg: Registry, id: TypeId) -> TypeId decreases reg.rank(id) {
    match single_unnamed(reg, id) { Some(t) => if reg.rank(t) < reg.rank(id) { skip_unnamed(reg, t) } else { id }, None => id }
}
// a list of bools, zeros and ones
pub open spec fn bit_of<T>(v: Value<T>) -> Option<bool> { match v.value { ValueDef::Primitive(Primitive::Bool(b)) => Some(b), ValueDef::Primitive(Primitive::U128(n)) => if n <= 1 { Some(n == 1) } else { None },
    ValueDef::Primitive(Primitive::I128(n)) => if n == 0 || n == 1 { Some(n == 1) } else { None }, _ => None } }
pub open spec fn bits_upto<T>(v: Seq<Value<T>>, n: nat) -> Seq<bool> { Seq::new(n, |i: int| bit_of(v[i])->Some_0) }
pub open spec fn first_nonbit<T>(v: Seq<Value<T>>, n: nat) -> Option<int> decreases n { if n == 0 { None } else { match first_nonbit(v, (n - 1) as nat) { Some(i) => Some(i), None => if bit_of(v[n - 1]) is None { Some(n - 1) } else { None } } } }
pub open spec fn nonbit_text() -> Seq<char> { "Cannot encode non-boolean/0/1 value into a bit sequence entry"@ }
pub open spec fn vals_of<T>(c: Composite<T>) -> Seq<Value<T>> { Seq::new(count(c), |i: int| item(c, i)) }
pub open spec fn enc_bitlist<T>(c: Composite<T>, s: BitsStoreFormat, o: BitsOrderFormat) -> EncR {
    match first_nonbit(vals_of(c), count(c)) { Some(i) => Err(at_idx(err_custom(nonbit_text()), i)), None => Ok(bits_bytes(bits_upto(vals_of(c), count(c)), s, o)) }
}
pub open spec fn any_named(fs: Seq<SField>) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).name is Some }
pub open spec fn or_empty(n: Option<Seq<char>>) -> Seq<char> { match n { Some(s) => s, None => Seq::empty() } }
// the last of the items with this name
pub open spec fn last_named<T>(v: Seq<(String, Value<T>)>, name: Seq<char>, n: nat) -> Option<int> decreases n { if n == 0 { None } else if v[n - 1].0@ == name { Some(n - 1) } else { last_named(v, name, (n - 1) as nat) } }
pub open spec fn ids(fs: Seq<SField>) -> Seq<TypeId> { fs.map_values(|f: SField| f.id) }
pub open spec fn unnamed_fields(ts: Seq<TypeId>) -> Seq<SField> { ts.map_values(|t: TypeId| SField { name: None, id: t }) }
pub open spec fn find_variant(vs: Seq<SVariant>, name: Seq<char>) -> Option<SVariant> decreases vs.len() { if vs.len() == 0 { None } else if vs[0].name == name { Some(vs[0]) } else { find_variant(vs.skip(1), name) } }

// ---- values.  What a value is encoded to as a type:
pub open spec fn enc<T>(reg: Registry, v: Value<T>, id: TypeId) -> EncR decreases v, 9nat {
    match v.value { ValueDef::Composite(c) => enc_comp(reg, c, id), ValueDef::Variant(x) => enc_variant(reg, x.name@, x.values, id), ValueDef::Primitive(p) => enc_prim(reg, p, id), ValueDef::BitSequence(b) => enc_bits(reg, b.bits(), id) }
}
// a single unnamed entry first lines up with a single unnamed field; then as is; then below the wrappers of the type; then below the wrapper of the value; else the error of as is
pub open spec fn enc_comp<T>(reg: Registry, c: Composite<T>, id: TypeId) -> EncR decreases c, 5nat {
    let aligned = if c is Unnamed && count(c) == 1 && single_unnamed(reg, id) is Some { enc_only(reg, c, single_unnamed(reg, id)->Some_0) } else { Err(arbitrary()) };
    if aligned is Ok { aligned } else {
        match plain(reg, c, id) {
            Ok(b) => Ok(b),
            Err(e) => {
                let below = if single(reg, id) is Some { plain(reg, c, same_repr(reg, id)) } else { Err(e) };
                if below is Ok { below } else {
                    let peeled = if count(c) == 1 { enc_only(reg, c, same_repr(reg, id)) } else { Err(e) };
                    if peeled is Ok { peeled } else { Err(e) }
                }
            },
        }
    }
}
pub open spec fn enc_only<T>(reg: Registry, c: Composite<T>, id: TypeId) -> EncR decreases c, 1nat {
    match c { Composite::Named(v) => if v@.len() == 1 { enc(reg, v@[0].1, id) } else { Err(arbitrary()) }, Composite::Unnamed(v) => if v@.len() == 1 { enc(reg, v@[0], id) } else { Err(arbitrary()) } }
}
// one attempt, as is
pub open spec fn plain<T>(reg: Registry, c: Composite<T>, id: TypeId) -> EncR decreases c, 4nat {
    match reg.shape(id) {
        Err(e) => Err(err_new(ErrorKind::TypeResolvingError(debug_of(e)))),
        Ok(Shape::Composite(_)) | Ok(Shape::Tuple(_)) => sc_comp(reg, c, id),
        Ok(Shape::Sequence(t)) => then(Ok(compact((count(c) as u32) as int)), enc_items(reg, c, repeat(count(c), t), true)),
        Ok(Shape::Array(t, n)) => if count(c) != n { Err(err_new(ErrorKind::WrongLength { actual_len: count(c) as usize, expected_len: n as usize })) } else { enc_items(reg, c, repeat(count(c), t), false) },
        Ok(Shape::BitSequence(s, o)) => enc_bitlist(c, s, o),
        _ => if count(c) == 1 { enc_only(reg, c, id) } else { Err(err_new(ErrorKind::WrongShape { actual: Kind::Tuple, expected_id: dbg(id) })) },
    }
}
pub open spec fn debug_of(e: ResolveError) -> String { dbg(e) }
// all items in order, each as the type given for it; an error is reported at the name of the item if asked for and it has one, else at its index
pub open spec fn enc_items<T>(reg: Registry, c: Composite<T>, ts: Seq<TypeId>, byname: bool) -> EncR decreases c, 1nat {
    match c { Composite::Named(v) => named_upto(reg, v, ts, byname, v@.len()), Composite::Unnamed(v) => unnamed_upto(reg, v, ts, v@.len()) }
}
pub open spec fn named_upto<T>(reg: Registry, v: Vec<(String, Value<T>)>, ts: Seq<TypeId>, byname: bool, n: nat) -> EncR decreases v, n {
    if n == 0 || n > v@.len() { Ok(Seq::empty()) } else {
        then(named_upto(reg, v, ts, byname, (n - 1) as nat), match enc(reg, v@[n - 1].1, ts[n - 1]) { Ok(b) => Ok(b), Err(e) => Err(if byname { at_field(e, v@[n - 1].0@) } else { at_idx(e, n - 1) }) })
    }
}
pub open spec fn unnamed_upto<T>(reg: Registry, v: Vec<Value<T>>, ts: Seq<TypeId>, n: nat) -> EncR decreases v, n {
    if n == 0 || n > v@.len() { Ok(Seq::empty()) } else {
        then(unnamed_upto(reg, v, ts, (n - 1) as nat), match enc(reg, v@[n - 1], ts[n - 1]) { Ok(b) => Ok(b), Err(e) => Err(at_idx(e, n - 1)) })
    }
}
// scale_encode: composite to struct or tuple type
pub open spec fn sc_comp<T>(reg: Registry, c: Composite<T>, id: TypeId) -> EncR decreases c, 3nat {
    let t = skip_unnamed(reg, id);
    match reg.shape(t) {
        Err(e) => Err(sc_err(ScErr::Resolve(e))),
        Ok(Shape::NotFound) => Err(sc_err(ScErr::NotFound(t))),
        Ok(Shape::Composite(fs)) => if c is Unnamed && count(c) == 1 { enc_only(reg, c, t) } else { enc_fields(reg, c, fs) },
        Ok(Shape::Tuple(ts)) => if count(c) == 1 { enc_only(reg, c, t) } else { enc_fields(reg, c, unnamed_fields(ts)) },
        _ => if count(c) == 1 { enc_only(reg, c, t) } else { Err(sc_err(ScErr::Shape(Kind::Struct, t))) },
    }
}
// scale_encode: composite to a list of fields: by name if both have names, else by position
pub open spec fn enc_fields<T>(reg: Registry, c: Composite<T>, fs: Seq<SField>) -> EncR decreases c, 2nat {
    if c is Named && count(c) > 0 && any_named(fs) { fields_by_name(reg, c->Named_0, fs, fs.len()) }
    else if fs.len() != count(c) { Err(sc_err(ScErr::Length(count(c) as int, fs.len() as int))) }
    else { enc_items(reg, c, ids(fs), true) }
}
pub open spec fn fields_by_name<T>(reg: Registry, v: Vec<(String, Value<T>)>, fs: Seq<SField>, n: nat) -> EncR decreases v, n {
    if n == 0 { Ok(Seq::empty()) } else {
        then(fields_by_name(reg, v, fs, (n - 1) as nat), { let name = or_empty(fs[n - 1].name);
            match last_named(v@, name, v@.len()) {
                Some(i) => if 0 <= i < v@.len() { match enc(reg, v@[i].1, fs[n - 1].id) { Ok(b) => Ok(b), Err(e) => Err(at_field(e, name)) } } else { Err(arbitrary()) },
                None => Err(sc_err(ScErr::Field(name))),
            } })
    }
}
// scale_encode: variants
pub open spec fn enc_variant<T>(reg: Registry, name: Seq<char>, c: Composite<T>, id: TypeId) -> EncR decreases c, 3nat {
    let t = narrow(reg, id);
    match reg.shape(t) {
        Err(e) => Err(sc_err(ScErr::Resolve(e))),
        Ok(Shape::Variant(vs)) => match find_variant(vs, name) { None => Err(sc_err(ScErr::Variant(name, t))), Some(w) => then(Ok(seq![w.index]), enc_fields(reg, c, w.fields)) },
        _ => Err(sc_err(ScErr::Shape(Kind::Str, t))),
    }
}

// ---- contracts.  What a call did to the buffer: what was there stays; the encoding is appended
pub open spec fn wrote(r: Result<(), Error>, before: Seq<u8>, after: Seq<u8>, e: EncR) -> bool {
    starts(before, after) && match e { Ok(b) => r is Ok && after == before + b, Err(x) => r is Err && r->Err_0 == x }
}
// the same, and nothing is left behind after an error
pub open spec fn wrote_all(r: Result<(), Error>, before: Seq<u8>, after: Seq<u8>, e: EncR) -> bool { wrote(r, before, after, e) && (r is Err ==> after == before) }

// scale_encode's implementations for Rust types
pub trait EncodeAsType { spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR;
    fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) ensures wrote(r, old(out)@, final(out)@, self.enc_spec(*types, type_id)); }
impl EncodeAsType for bool { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_bool(reg, *self, id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl EncodeAsType for char { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_num(reg, *self as int, id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl EncodeAsType for String { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_str(reg, self@, id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl EncodeAsType for u128 { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_num(reg, *self as int, id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl EncodeAsType for i128 { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_num(reg, *self as int, id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl EncodeAsType for [u8; 32] { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_array32(reg, self@, id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
impl EncodeAsType for BitSequence { open spec fn enc_spec(&self, reg: Registry, id: TypeId) -> EncR { enc_bits(reg, self.bits(), id) }
    #[verifier::external_body] fn encode_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) { unimplemented!() } }
pub struct Format { pub store: BitsStoreFormat, pub order: BitsOrderFormat }
#[verifier::external_body]
pub fn encode_using_format_to(b: Vec<bool>, format: Format, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + bits_bytes(b@, format.store, format.order) { unimplemented!() }

// scale_encode's helpers for composites and variants: the list they are given must be the items of the composite, in order
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct CompositeField<'a, T> { v: &'a Value<T> }
impl<'a, T> CompositeField<'a, T> {
    pub uninterp spec fn val(&self) -> Value<T>;
    #[verifier::external_body]
    pub fn new(v: &'a Value<T>) -> (r: CompositeField<'a, T>) ensures r.val() == *v { unimplemented!() }
}
pub open spec fn view_name(n: Option<&str>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
pub open spec fn lines_up<T>(v: Seq<(Option<&str>, CompositeField<'_, T>)>, c: Composite<T>) -> bool {
    v.len() == count(c) && forall|i: int| 0 <= i < v.len() ==> view_name((#[trigger] v[i]).0) == name_of(c, i) && v[i].1.val() == item(c, i)
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct EncodeComposite<'a, T> { v: Vec<(Option<&'a str>, CompositeField<'a, T>)> }
impl<'a, T> EncodeComposite<'a, T> {
    pub uninterp spec fn comp(&self) -> Composite<T>;
    #[verifier::external_body]
    pub fn new(v: Vec<(Option<&'a str>, CompositeField<'a, T>)>, c: Ghost<Composite<T>>) -> (r: EncodeComposite<'a, T>) requires lines_up(v@, c@) ensures r.comp() == c@ { unimplemented!() }
    #[verifier::external_body]
    pub fn encode_composite_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) requires types.ranked() ensures wrote(r, old(out)@, final(out)@, sc_comp(*types, self.comp(), type_id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn encode_composite_fields_to(&self, fields: &mut FieldIter<'_>, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) requires types.ranked() ensures wrote(r, old(out)@, final(out)@, enc_fields(*types, self.comp(), old(fields).left())) { unimplemented!() }
}
pub struct EncodeVariant<'a, T> { pub name: &'a str, pub fields: EncodeComposite<'a, T> }
impl<'a, T> EncodeVariant<'a, T> {
    #[verifier::external_body]
    pub fn encode_variant_as_type_to(&self, type_id: TypeId, types: &Registry, out: &mut Vec<u8>) -> (r: Result<(), Error>) requires types.ranked()
        ensures wrote(r, old(out)@, final(out)@, enc_variant(*types, self.name@, self.fields.comp(), type_id)) { unimplemented!() }
}
"""
