//! A small type registry of our own, a generator of random types, and an independent reference for
//! SCALE: generation of (bytes, value) pairs, decoding and encoding, written from the SCALE format
//! description and not from the code under test.
use crate::rng::Rng;
use scale_type_resolver::{self as str_, BitsOrderFormat, BitsStoreFormat, Field, Primitive as P, ResolvedTypeVisitor, TypeResolver};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};

#[derive(Clone, Debug)]
pub struct FieldT {
    pub name: Option<String>,
    pub ty: u32,
}
#[derive(Clone, Debug)]
pub struct VariantT {
    pub name: String,
    pub index: u8,
    pub fields: Vec<FieldT>,
}
#[derive(Clone, Debug)]
pub enum Ty {
    Prim(P),
    Compact(u32),
    Seq(u32),
    Array(u32, usize),
    Tuple(Vec<u32>),
    Struct(Vec<FieldT>),
    Enum(Vec<VariantT>),
    Bits(BitsStoreFormat, BitsOrderFormat),
}
#[derive(Clone, Debug, Default)]
pub struct Reg(pub Vec<Ty>);

impl TypeResolver for Reg {
    type TypeId = u32;
    type Error = String;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(
        &'this self,
        id: u32,
        visitor: V,
    ) -> Result<V::Value, String> {
        let Some(ty) = self.0.get(id as usize) else { return Ok(visitor.visit_not_found()) };
        let path = ["path"].into_iter();
        fn fld<'a>(f: &'a FieldT) -> Field<'a, u32> {
            Field { name: f.name.as_deref(), id: f.ty }
        }
        Ok(match ty {
            Ty::Prim(p) => visitor.visit_primitive(*p),
            Ty::Compact(t) => visitor.visit_compact(*t),
            Ty::Seq(t) => visitor.visit_sequence(path, *t),
            Ty::Array(t, n) => visitor.visit_array(*t, *n),
            Ty::Tuple(ts) => visitor.visit_tuple(ts.iter().copied()),
            Ty::Struct(fs) => visitor.visit_composite(path, fs.iter().map(fld)),
            Ty::Enum(vs) => visitor.visit_variant(
                path,
                vs.iter().map(|v| str_::Variant {
                    index: v.index,
                    name: &v.name,
                    fields: v.fields.iter().map(fld as fn(&'this FieldT) -> Field<'this, u32>),
                }),
            ),
            Ty::Bits(s, o) => visitor.visit_bit_sequence(*s, *o),
        })
    }
}

pub const INTS: [P; 10] = [P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128];
pub const STORES: [BitsStoreFormat; 4] = [BitsStoreFormat::U8, BitsStoreFormat::U16, BitsStoreFormat::U32, BitsStoreFormat::U64];
pub const ORDERS: [BitsOrderFormat; 2] = [BitsOrderFormat::Lsb0, BitsOrderFormat::Msb0];

pub fn int_bytes(p: P) -> usize {
    match p {
        P::U8 | P::I8 => 1,
        P::U16 | P::I16 => 2,
        P::U32 | P::I32 => 4,
        P::U64 | P::I64 => 8,
        P::U128 | P::I128 => 16,
        P::U256 | P::I256 => 32,
        _ => panic!("not an int"),
    }
}
pub fn is_signed(p: P) -> bool {
    matches!(p, P::I8 | P::I16 | P::I32 | P::I64 | P::I128 | P::I256)
}

impl Reg {
    pub fn add(&mut self, t: Ty) -> u32 {
        self.0.push(t);
        (self.0.len() - 1) as u32
    }
    pub fn get(&self, id: u32) -> &Ty {
        &self.0[id as usize]
    }
    /// human readable rendering of a type
    pub fn show(&self, id: u32) -> String {
        match self.get(id) {
            Ty::Prim(p) => format!("{p:?}"),
            Ty::Compact(t) => format!("Compact<{}>", self.show(*t)),
            Ty::Seq(t) => format!("Vec<{}>", self.show(*t)),
            Ty::Array(t, n) => format!("[{}; {n}]", self.show(*t)),
            Ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.show(*t)).collect::<Vec<_>>().join(", ")),
            Ty::Struct(fs) => format!("struct {{{}}}", self.show_fields(fs)),
            Ty::Enum(vs) => format!(
                "enum {{{}}}",
                vs.iter().map(|v| format!("#{} {:?}{{{}}}", v.index, v.name, self.show_fields(&v.fields))).collect::<Vec<_>>().join(", ")
            ),
            Ty::Bits(s, o) => format!("BitVec<{s:?},{o:?}>"),
        }
    }
    pub fn show_fields(&self, fs: &[FieldT]) -> String {
        fs.iter()
            .map(|f| match &f.name {
                Some(n) => format!("{n:?}: {}", self.show(f.ty)),
                None => self.show(f.ty),
            })
            .collect::<Vec<_>>()
            .join(", ")
    }
    /// A random type. `big` allows 256-bit integers.
    pub fn gen(&mut self, rng: &mut Rng, depth: usize, big: bool) -> u32 {
        let k = if depth == 0 { rng.below(5) } else { rng.below(16) };
        let t = match k {
            0 => Ty::Prim(*rng.pick(&[P::Bool, P::Char, P::Str])),
            1 | 2 => {
                if big && rng.chance(1, 8) {
                    Ty::Prim(*rng.pick(&[P::U256, P::I256]))
                } else {
                    Ty::Prim(*rng.pick(&INTS))
                }
            }
            3 => {
                let p = *rng.pick(&[P::U8, P::U16, P::U32, P::U64, P::U128]);
                let mut t = self.add(Ty::Prim(p));
                while rng.chance(1, 4) {
                    t = if rng.bool() {
                        self.add(Ty::Tuple(vec![t]))
                    } else {
                        let name = if rng.bool() { Some("n".to_string()) } else { None };
                        self.add(Ty::Struct(vec![FieldT { name, ty: t }]))
                    };
                }
                Ty::Compact(t)
            }
            4 => Ty::Bits(*rng.pick(&STORES), *rng.pick(&ORDERS)),
            5 | 6 => {
                let t = self.gen(rng, depth - 1, big);
                Ty::Seq(t)
            }
            7 => {
                let t = self.gen(rng, depth - 1, big);
                Ty::Array(t, rng.size(5, 300))
            }
            8 | 9 => {
                let n = rng.size(5, 100);
                let ts = (0..n).map(|_| self.gen(rng, depth - 1, big)).collect();
                Ty::Tuple(ts)
            }
            10 | 11 | 12 => {
                let fs = self.gen_fields(rng, depth - 1, big);
                Ty::Struct(fs)
            }
            _ => {
                let n = 1 + rng.size(4, 60);
                let mut vs: Vec<VariantT> = vec![];
                for i in 0..n {
                    let fields = self.gen_fields(rng, depth - 1, big);
                    let mut index = rng.u64() as u8;
                    while vs.iter().any(|v| v.index == index) {
                        index = index.wrapping_add(1);
                    }
                    let mut name = gen_name(rng);
                    while vs.iter().any(|v| v.name == name) {
                        name = format!("{name}{i}");
                    }
                    vs.push(VariantT { name, index, fields });
                }
                Ty::Enum(vs)
            }
        };
        self.add(t)
    }
    pub fn gen_fields(&mut self, rng: &mut Rng, depth: usize, big: bool) -> Vec<FieldT> {
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            _ => 1 + rng.size(5, 100),
        };
        let named = rng.chance(2, 3);
        let mut out: Vec<FieldT> = vec![];
        for i in 0..n {
            let mut name = gen_name(rng);
            while out.iter().any(|f| f.name.as_deref() == Some(&name)) {
                name = format!("{name}{i}");
            }
            out.push(FieldT { name: if named { Some(name) } else { None }, ty: self.gen(rng, depth, big) });
        }
        out
    }
    /// least number of bytes any value of the type occupies
    pub fn min_size(&self, id: u32) -> usize {
        match self.get(id) {
            Ty::Prim(P::Bool) => 1,
            Ty::Prim(P::Char) => 4,
            Ty::Prim(P::Str) => 1,
            Ty::Prim(p) => int_bytes(*p),
            Ty::Compact(_) | Ty::Seq(_) | Ty::Bits(..) | Ty::Enum(_) => 1,
            Ty::Array(t, n) => self.min_size(*t) * n,
            Ty::Tuple(ts) => ts.iter().map(|t| self.min_size(*t)).sum(),
            Ty::Struct(fs) => fs.iter().map(|f| self.min_size(f.ty)).sum(),
        }
    }
    pub fn has_zst_list(&self, id: u32) -> bool {
        match self.get(id) {
            Ty::Prim(_) | Ty::Compact(_) | Ty::Bits(..) => false,
            Ty::Seq(t) => self.min_size(*t) == 0 || self.has_zst_list(*t),
            Ty::Array(t, _) => self.has_zst_list(*t),
            Ty::Tuple(ts) => ts.iter().any(|t| self.has_zst_list(*t)),
            Ty::Struct(fs) => fs.iter().any(|f| self.has_zst_list(f.ty)),
            Ty::Enum(vs) => vs.iter().any(|v| v.fields.iter().any(|f| self.has_zst_list(f.ty))),
        }
    }
    pub fn has_big_int(&self, id: u32) -> bool {
        match self.get(id) {
            Ty::Prim(p) => matches!(p, P::U256 | P::I256),
            Ty::Compact(_) | Ty::Bits(..) => false,
            Ty::Seq(t) | Ty::Array(t, _) => self.has_big_int(*t),
            Ty::Tuple(ts) => ts.iter().any(|t| self.has_big_int(*t)),
            Ty::Struct(fs) => fs.iter().any(|f| self.has_big_int(f.ty)),
            Ty::Enum(vs) => vs.iter().any(|v| v.fields.iter().any(|f| self.has_big_int(f.ty))),
        }
    }
}

pub fn gen_name(rng: &mut Rng) -> String {
    const NAMES: &[&str] = &[
        "a", "b", "foo", "bar", "Foo", "x1", "_z", "hello there", "", "true", "false", "trueish", "v", "value", "name", "values", "Some",
        "None", "é", "漢字", "1st", "with\"quote", "new\nline", "n", "__bitvec__", "falsey", "t_r_u_e", "vx", "v\"", "Ok",
    ];
    if rng.chance(1, 4) {
        if rng.chance(1, 4) {
            if let Some(s) = rng.dict_string() {
                return s;
            }
        }
        rng.string(6)
    } else {
        rng.pick(NAMES).to_string()
    }
}

/// canonical compact encoding
pub fn compact(n: u128, out: &mut Vec<u8>) {
    if n < 64 {
        out.push((n as u8) << 2);
    } else if n < 1 << 14 {
        out.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes());
    } else if n < 1 << 30 {
        out.extend_from_slice(&(((n as u32) << 2) | 2).to_le_bytes());
    } else {
        let bytes = n.to_le_bytes();
        let len = 16 - bytes.iter().rev().take_while(|b| **b == 0).count();
        out.push((((len - 4) as u8) << 2) | 3);
        out.extend_from_slice(&bytes[..len]);
    }
}

fn store_bits(s: BitsStoreFormat) -> usize {
    match s {
        BitsStoreFormat::U8 => 8,
        BitsStoreFormat::U16 => 16,
        BitsStoreFormat::U32 => 32,
        BitsStoreFormat::U64 => 64,
    }
}
/// SCALE encoding of a bit sequence in a store/order format.
pub fn encode_bits(bits: &[bool], s: BitsStoreFormat, o: BitsOrderFormat, out: &mut Vec<u8>) {
    compact(bits.len() as u128, out);
    let w = store_bits(s);
    for chunk in bits.chunks(w) {
        let mut word = 0u64;
        for (i, b) in chunk.iter().enumerate() {
            if *b {
                match o {
                    BitsOrderFormat::Lsb0 => word |= 1 << i,
                    BitsOrderFormat::Msb0 => word |= 1 << (w - 1 - i),
                }
            }
        }
        out.extend_from_slice(&word.to_le_bytes()[..w / 8]);
    }
}
pub fn bitseq(bits: &[bool]) -> BitSequence {
    let mut b = BitSequence::new();
    for x in bits {
        b.push(*x);
    }
    b
}
pub fn bits_of(b: &BitSequence) -> Vec<bool> {
    b.iter().collect()
}

fn v(value: ValueDef<u32>, context: u32) -> Value<u32> {
    Value { value, context }
}
fn prim(p: Primitive, id: u32) -> Value<u32> {
    v(ValueDef::Primitive(p), id)
}

/// What an integer of this type's bytes denotes.
pub fn int_value(p: P, b: &[u8]) -> Primitive {
    let mut w = [0u8; 32];
    w[..b.len()].copy_from_slice(b);
    match p {
        P::U256 => Primitive::U256(w),
        P::I256 => Primitive::I256(w),
        p if is_signed(p) => {
            let neg = b[b.len() - 1] & 0x80 != 0;
            let mut x = [if neg { 0xff } else { 0 }; 16];
            x[..b.len()].copy_from_slice(b);
            Primitive::I128(i128::from_le_bytes(x))
        }
        _ => {
            let mut x = [0; 16];
            x[..b.len()].copy_from_slice(b);
            Primitive::U128(u128::from_le_bytes(x))
        }
    }
}

thread_local! {
    /// the longest list that the reference decoder was asked for
    pub static LONGEST: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
impl Reg {
    /// A random value of the type: appends its SCALE bytes to out, and returns the Value expected from decoding.
    pub fn sample(&self, id: u32, rng: &mut Rng, out: &mut Vec<u8>) -> Value<u32> {
        match self.get(id) {
            Ty::Prim(P::Bool) => {
                let b = rng.bool();
                out.push(b as u8);
                prim(Primitive::Bool(b), id)
            }
            Ty::Prim(P::Char) => {
                let c = rng.char();
                out.extend_from_slice(&(c as u32).to_le_bytes());
                prim(Primitive::Char(c), id)
            }
            Ty::Prim(P::Str) => {
                let s = rng.string(8);
                compact(s.len() as u128, out);
                out.extend_from_slice(s.as_bytes());
                prim(Primitive::String(s), id)
            }
            Ty::Prim(p) => {
                let n = int_bytes(*p);
                let b = match rng.below(4) {
                    0 => vec![0; n],
                    1 => vec![0xff; n],
                    2 => {
                        let mut b = vec![0; n];
                        b[n - 1] = 0x80;
                        b
                    }
                    _ => rng.bytes(n),
                };
                out.extend_from_slice(&b);
                prim(int_value(*p, &b), id)
            }
            Ty::Compact(t) => {
                let (bits, _) = self.compact_inner(*t);
                let n = if bits == 128 { rng.edgy_u128() } else { rng.edgy_u128() % (1u128 << bits) };
                compact(n, out);
                self.wrap_compact(*t, n)
            }
            Ty::Seq(t) => {
                let n = if rng.chance(1, 12) { rng.range(60, 70) } else { rng.size(4, 2000) };
                let n = if out.len() > 20_000 { n.min(1) } else { n };
                compact(n as u128, out);
                let vals = (0..n).map(|_| self.sample(*t, rng, out)).collect();
                v(ValueDef::Composite(Composite::Unnamed(vals)), id)
            }
            Ty::Array(t, n) => {
                let vals = (0..*n).map(|_| self.sample(*t, rng, out)).collect();
                v(ValueDef::Composite(Composite::Unnamed(vals)), id)
            }
            Ty::Tuple(ts) => {
                let vals = ts.iter().map(|t| self.sample(*t, rng, out)).collect();
                v(ValueDef::Composite(Composite::Unnamed(vals)), id)
            }
            Ty::Struct(fs) => {
                let c = self.sample_fields(fs, rng, out);
                v(ValueDef::Composite(c), id)
            }
            Ty::Enum(vs) => {
                let var = rng.pick(vs);
                out.push(var.index);
                let values = self.sample_fields(&var.fields, rng, out);
                v(ValueDef::Variant(Variant { name: var.name.clone(), values }), id)
            }
            Ty::Bits(s, o) => {
                let n = if rng.bool() { rng.below(20) } else { rng.size(140, 20000) };
                let bits: Vec<bool> = (0..n).map(|_| rng.bool()).collect();
                encode_bits(&bits, *s, *o, out);
                v(ValueDef::BitSequence(bitseq(&bits)), id)
            }
        }
    }
    pub fn sample_fields(&self, fs: &[FieldT], rng: &mut Rng, out: &mut Vec<u8>) -> Composite<u32> {
        let vals: Vec<Value<u32>> = fs.iter().map(|f| self.sample(f.ty, rng, out)).collect();
        named_if_all(fs, vals)
    }
    /// width of the integer inside a compact's inner type
    fn compact_inner(&self, t: u32) -> (u32, bool) {
        match self.get(t) {
            Ty::Prim(p) => (int_bytes(*p) as u32 * 8, false),
            Ty::Tuple(ts) => self.compact_inner(ts[0]),
            Ty::Struct(fs) => self.compact_inner(fs[0].ty),
            _ => panic!("bad compact"),
        }
    }
    /// Compact<Wrapper(u32)> decodes to a composite holding the number, each level with the id of the
    /// type inside the compact that it belongs to.
    fn wrap_compact(&self, t: u32, n: u128) -> Value<u32> {
        match self.get(t) {
            Ty::Prim(_) => prim(Primitive::U128(n), t),
            Ty::Tuple(ts) => v(ValueDef::Composite(Composite::Unnamed(vec![self.wrap_compact(ts[0], n)])), t),
            Ty::Struct(fs) => v(ValueDef::Composite(named_if_all(fs, vec![self.wrap_compact(fs[0].ty, n)])), t),
            _ => panic!("bad compact"),
        }
    }
    /// Reference decoder. None: not decodable. The bytes of the value are removed from the front of b.
    pub fn decode(&self, id: u32, b: &mut &[u8]) -> Option<Value<u32>> {
        Some(match self.get(id) {
            Ty::Prim(P::Bool) => match take(b, 1)?[0] {
                0 => prim(Primitive::Bool(false), id),
                1 => prim(Primitive::Bool(true), id),
                _ => return None,
            },
            Ty::Prim(P::Char) => {
                let x = u32::from_le_bytes(take(b, 4)?.try_into().unwrap());
                prim(Primitive::Char(char::from_u32(x)?), id)
            }
            Ty::Prim(P::Str) => {
                let n = uncompact(b)?;
                if n > u32::MAX as u128 {
                    return None;
                }
                let s = take(b, n as usize)?;
                prim(Primitive::String(std::str::from_utf8(s).ok()?.to_string()), id)
            }
            Ty::Prim(p) => {
                // scale-decode only accepts 256-bit numbers when exactly their bytes remain
                if matches!(p, P::U256 | P::I256) && b.len() != 32 {
                    return None;
                }
                let x = take(b, int_bytes(*p))?;
                prim(int_value(*p, x), id)
            }
            Ty::Compact(t) => {
                let (bits, _) = self.compact_inner(*t);
                let n = uncompact(b)?;
                if bits < 128 && n >= 1u128 << bits {
                    return None;
                }
                self.wrap_compact(*t, n)
            }
            Ty::Seq(t) => {
                let n = uncompact(b)?;
                LONGEST.with(|l| l.set(l.get().max(n.min(u64::MAX as u128) as u64)));
                if n > u32::MAX as u128 {
                    return None;
                }
                let mut vals = vec![];
                for _ in 0..n {
                    vals.push(self.decode(*t, b)?);
                }
                v(ValueDef::Composite(Composite::Unnamed(vals)), id)
            }
            Ty::Array(t, n) => {
                let mut vals = vec![];
                for _ in 0..*n {
                    vals.push(self.decode(*t, b)?);
                }
                v(ValueDef::Composite(Composite::Unnamed(vals)), id)
            }
            Ty::Tuple(ts) => {
                let mut vals = vec![];
                for t in ts {
                    vals.push(self.decode(*t, b)?);
                }
                v(ValueDef::Composite(Composite::Unnamed(vals)), id)
            }
            Ty::Struct(fs) => v(ValueDef::Composite(self.decode_fields(fs, b)?), id),
            Ty::Enum(vs) => {
                let i = take(b, 1)?[0];
                let var = vs.iter().find(|x| x.index == i)?;
                let values = self.decode_fields(&var.fields, b)?;
                v(ValueDef::Variant(Variant { name: var.name.clone(), values }), id)
            }
            Ty::Bits(s, o) => {
                let n = uncompact(b)?;
                if n > u32::MAX as u128 {
                    return None;
                }
                let n = n as usize;
                let w = store_bits(*s);
                let bytes = take(b, n.div_ceil(w) * (w / 8))?;
                let mut bits = vec![];
                for i in 0..n {
                    let word = &bytes[(i / w) * (w / 8)..(i / w + 1) * (w / 8)];
                    let pos = match o {
                        BitsOrderFormat::Lsb0 => i % w,
                        BitsOrderFormat::Msb0 => w - 1 - i % w,
                    };
                    bits.push(word[pos / 8] >> (pos % 8) & 1 == 1);
                }
                v(ValueDef::BitSequence(bitseq(&bits)), id)
            }
        })
    }
    pub fn decode_fields(&self, fs: &[FieldT], b: &mut &[u8]) -> Option<Composite<u32>> {
        let mut vals = vec![];
        for f in fs {
            vals.push(self.decode(f.ty, b)?);
        }
        Some(named_if_all(fs, vals))
    }
}
fn named_if_all(fs: &[FieldT], vals: Vec<Value<u32>>) -> Composite<u32> {
    if !fs.is_empty() && fs.iter().all(|f| f.name.is_some()) {
        Composite::Named(fs.iter().map(|f| f.name.clone().unwrap()).zip(vals).collect())
    } else {
        Composite::Unnamed(vals)
    }
}
pub fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if b.len() < n {
        return None;
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Some(x)
}
/// Reference compact decoder: canonical encodings only.
pub fn uncompact(b: &mut &[u8]) -> Option<u128> {
    let start = *b;
    let f = take(b, 1)?[0];
    let n = match f & 3 {
        0 => (f >> 2) as u128,
        1 => (u16::from_le_bytes([f, take(b, 1)?[0]]) >> 2) as u128,
        2 => {
            let r = take(b, 3)?;
            (u32::from_le_bytes([f, r[0], r[1], r[2]]) >> 2) as u128
        }
        _ => {
            let len = (f >> 2) as usize + 4;
            if len > 16 {
                return None;
            }
            let mut x = [0; 16];
            x[..len].copy_from_slice(take(b, len)?);
            u128::from_le_bytes(x)
        }
    };
    let mut canon = vec![];
    compact(n, &mut canon);
    if canon != start[..start.len() - b.len()] {
        return None;
    }
    Some(n)
}
