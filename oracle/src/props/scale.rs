use crate::ctx::{hex, check, no_panic, Case, Ctx};
use crate::gen;
use crate::reg::*;
use crate::rng::Rng;
use codec::Encode;
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_type_resolver::{Field, Primitive as P};
use scale_value::scale::{self, tracing};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

type Dec = (Result<Value<u32>, String>, usize);
pub fn decode(reg: &Reg, id: u32, b: &[u8]) -> Dec {
    let mut c = b;
    let r = scale::decode_as_type(&mut c, id, reg).map_err(|e| e.to_string());
    (r, c.len())
}
pub fn trace(reg: &Reg, id: u32, b: &[u8]) -> Dec {
    let mut c = b;
    let r = tracing::decode_as_type(&mut c, id, reg);
    let r = r.map_err(|e| e.to_string());
    (r, c.len())
}
pub fn encode<T>(v: &Value<T>, reg: &Reg, id: u32) -> Result<Vec<u8>, scale_encode::Error> {
    let mut out = vec![];
    v.encode_as_type_to(id, reg, &mut out)?;
    Ok(out)
}
pub fn encode_s<T>(v: &Value<T>, reg: &Reg, id: u32) -> Result<Vec<u8>, String> {
    encode(v, reg, id).map_err(|e| e.to_string())
}
fn expect_decode(name: &str, got: &Dec, want: &Value<u32>, rest: usize) -> Result<(), String> {
    match &got.0 {
        Ok(v) => {
            check(v == want, || format!("{name}: decoded {v:?}, expected {want:?}"))?;
            check(got.1 == rest, || format!("{name}: left {} bytes, expected {rest}", got.1))
        }
        Err(e) => Err(format!("{name}: failed with {e}, expected {want:?}")),
    }
}

pub fn s01(ctx: &mut Ctx) {
    ctx.rule("bounded: every u8/i8/u16/i16/bool byte pattern, edge and random patterns of the wider integers and chars, both decoders, with trailing bytes and every truncation; distinct = distinct (type, bytes)");
    let mut one = |c: &mut Case, p: P, b: &[u8]| -> Result<(), String> {
        let reg = Reg(vec![Ty::Prim(P::Bool), Ty::Prim(p)]);
        let mut full = b.to_vec();
        if b.len() != 32 {
            full.push(0xA5);
        }
        c.input(format!("type {p:?} bytes {}", hex(&full)));
        for (name, f) in [("plain decoder", decode as fn(&Reg, u32, &[u8]) -> Dec), ("tracing decoder", trace)] {
            let mut rest = &full[..];
            match reg.decode(1, &mut rest) {
                Some(want) => expect_decode(name, &f(&reg, 1, &full), &want, rest.len())?,
                None => check(f(&reg, 1, &full).0.is_err(), || format!("{name}: accepted illegal bytes"))?,
            }
            for n in 0..b.len() {
                check(f(&reg, 1, &b[..n]).0.is_err(), || format!("{name}: accepted {n} of {} bytes", b.len()))?;
            }
            // and inside a list of two
            let reg2 = Reg(vec![Ty::Prim(p), Ty::Array(0, 2)]);
            let mut two = b.to_vec();
            two.extend_from_slice(b);
            let mut rest = &two[..];
            match reg2.decode(1, &mut rest) {
                Some(want) => expect_decode(name, &f(&reg2, 1, &two), &want, 0)?,
                None => check(f(&reg2, 1, &two).0.is_err(), || format!("{name}: accepted illegal bytes in a list"))?,
            }
        }
        Ok(())
    };
    ctx.section("bool", 256, |c| one(c, P::Bool, &[c.idx as u8]));
    ctx.section("u8", 256, |c| one(c, P::U8, &[c.idx as u8]));
    ctx.section("i8", 256, |c| one(c, P::I8, &[c.idx as u8]));
    ctx.section("u16", 65536, |c| one(c, P::U16, &(c.idx as u16).to_le_bytes()));
    ctx.section("i16", 65536, |c| one(c, P::I16, &(c.idx as u16).to_le_bytes()));
    let n = ctx.n(2000, 100000);
    ctx.section("char", n, |c| {
        let x = match c.rng.below(3) {
            0 => c.rng.u64() as u32,
            1 => c.rng.char() as u32,
            _ => *c.rng.pick(&[0, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, u32::MAX]),
        };
        one(c, P::Char, &x.to_le_bytes())
    });
    for p in [P::U32, P::U64, P::U128, P::U256, P::I32, P::I64, P::I128, P::I256] {
        let n = ctx.n(1500, 60000);
        ctx.section(&format!("{p:?}"), n, |c| {
            let k = int_bytes(p);
            let mut b = if c.rng.bool() { c.rng.edgy_u128().to_le_bytes().to_vec() } else { c.rng.edgy_i128().to_le_bytes().to_vec() };
            b.resize(k, *c.rng.pick(&[0, 0xff, 0x80, 0x7f]));
            if c.rng.chance(1, 3) {
                let i = c.rng.below(k);
                b[i] = c.rng.u64() as u8;
            }
            one(c, p, &b)
        });
    }
}

pub fn ref_encode_int(v: &Primitive, p: P) -> Option<Vec<u8>> {
    let k = int_bytes(p);
    if k > 16 {
        return None;
    }
    let (neg, bits, mag): (bool, [u8; 16], u128) = match v {
        Primitive::U128(n) => (false, n.to_le_bytes(), *n),
        Primitive::I128(n) => (*n < 0, n.to_le_bytes(), n.unsigned_abs()),
        _ => return None,
    };
    let w = k as u32 * 8;
    let fits = if is_signed(p) {
        let half = 1u128 << (w - 1);
        if neg { mag <= half } else { mag < half }
    } else {
        !neg && (w == 128 || mag < 1u128 << w)
    };
    if fits { Some(bits[..k].to_vec()) } else { None }
}
fn match_enc(got: Result<Vec<u8>, String>, want: Option<Vec<u8>>) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Some(b)) => check(a == b, || format!("encoded {}, expected {}", hex(&a), hex(&b))),
        (Ok(a), None) => Err(format!("encoded {}, expected an error", hex(&a))),
        (Err(e), Some(b)) => Err(format!("failed with {e}, expected {}", hex(&b))),
        (Err(_), None) => Ok(()),
    }
}
pub fn s02(ctx: &mut Ctx) {
    ctx.rule("bounded: edge and random u128/i128 against all ten integer types and five compact types, plain and wrapped; bools, chars and strings against their own and other types; distinct = distinct (value, type)");
    let n = ctx.n(4000, 200000);
    ctx.section("integers", n, |c| {
        let v = if c.rng.bool() { Primitive::U128(c.rng.edgy_u128()) } else { Primitive::I128(c.rng.edgy_i128()) };
        c.input(format!("{v:?} to every integer and compact type"));
        for p in INTS {
            let reg = Reg(vec![Ty::Prim(p), Ty::Tuple(vec![0]), Ty::Compact(0)]);
            let want = ref_encode_int(&v, p);
            match_enc(encode_s(&Value::primitive(v.clone()), &reg, 0), want.clone()).map_err(|e| format!("{p:?}: {e}"))?;
            match_enc(encode_s(&Value::primitive(v.clone()), &reg, 1), want.clone()).map_err(|e| format!("({p:?},): {e}"))?;
            if let Some(w) = &want {
                // decoding gives the same number back
                let (r, rest) = decode(&reg, 0, w);
                let ok = match (r.map(|v| v.value), &v) {
                    (Ok(ValueDef::Primitive(Primitive::U128(a))), Primitive::U128(b)) => a == *b,
                    (Ok(ValueDef::Primitive(Primitive::I128(a))), Primitive::I128(b)) => a == *b,
                    (Ok(ValueDef::Primitive(Primitive::U128(a))), Primitive::I128(b)) => *b >= 0 && a == *b as u128,
                    (Ok(ValueDef::Primitive(Primitive::I128(a))), Primitive::U128(b)) => a >= 0 && *b == a as u128,
                    _ => false,
                };
                check(ok && rest == 0, || format!("{p:?}: does not decode back"))?;
            }
            if !is_signed(p) {
                let want = want.map(|_| {
                    let mut o = vec![];
                    match v {
                        Primitive::U128(n) => compact(n, &mut o),
                        Primitive::I128(n) => compact(n as u128, &mut o),
                        _ => {}
                    }
                    o
                });
                match_enc(encode_s(&Value::primitive(v.clone()), &reg, 2), want).map_err(|e| format!("Compact<{p:?}>: {e}"))?;
            }
        }
        for p in [P::Bool, P::Char, P::Str] {
            let reg = Reg(vec![Ty::Prim(p)]);
            match_enc(encode_s(&Value::primitive(v.clone()), &reg, 0), None).map_err(|e| format!("{p:?}: {e}"))?;
        }
        Ok(())
    });
    let n = ctx.n(2000, 50000);
    ctx.section("bool, char, string", n, |c| {
        let v = match c.rng.below(3) {
            0 => Primitive::Bool(c.rng.bool()),
            1 => Primitive::Char(c.rng.char()),
            _ => {
                if c.rng.chance(1, 50) {
                    let n = *c.rng.pick(&[63, 64, 16383, 16384]);
                    Primitive::String("x".repeat(n))
                } else {
                    Primitive::String(c.rng.string(40))
                }
            }
        };
        c.input(format!("{v:?} to every primitive type"));
        for p in [P::Bool, P::Char, P::Str].into_iter().chain(INTS) {
            let reg = Reg(vec![Ty::Prim(p)]);
            let want = match (&v, p) {
                (Primitive::Bool(b), P::Bool) => Some(vec![*b as u8]),
                (Primitive::Char(x), P::Char) => Some((*x as u32).to_le_bytes().to_vec()),
                (Primitive::String(s), P::Str) => {
                    let mut o = vec![];
                    compact(s.len() as u128, &mut o);
                    o.extend_from_slice(s.as_bytes());
                    Some(o)
                }
                // a char is its code point where a number is wanted
                (Primitive::Char(x), p) if INTS.contains(&p) => ref_encode_int(&Primitive::U128(*x as u128), p),
                _ => None,
            };
            match_enc(encode_s(&Value::primitive(v.clone()), &reg, 0), want).map_err(|e| format!("{p:?}: {e}"))?;
        }
        Ok(())
    });
}

fn gen_type(rng: &mut Rng, depth: usize, big: bool) -> (Reg, u32) {
    let mut reg = Reg::default();
    let id = reg.gen(rng, depth, big);
    (reg, id)
}
/// now and then many layers deep
fn deep_type(rng: &mut Rng, depth: usize, big: bool) -> (Reg, u32) {
    let (mut reg, mut id) = gen_type(rng, depth, big);
    let mut lists = 0;
    for _ in 0..rng.layers(80) {
        let name = if rng.bool() { Some(gen_name(rng)) } else { None };
        let t = match rng.below(6) {
            0 => Ty::Tuple(vec![id]),
            1 => Ty::Array(id, 1),
            2 if lists < 4 => {
                lists += 1;
                Ty::Seq(id)
            }
            2 | 3 => Ty::Enum(vec![VariantT { name: gen_name(rng), index: rng.below(256) as u8, fields: vec![FieldT { name, ty: id }] }]),
            _ => Ty::Struct(vec![FieldT { name, ty: id }]),
        };
        id = reg.add(t);
    }
    (reg, id)
}
pub fn s03(ctx: &mut Ctx) {
    ctx.rule("bounded: random types of depth at most 4 with at most 5 fields or variants, one random value each, plus wide structs and lists of up to 300 items; expected value from an independent generator");
    let n = ctx.n(6000, 300000);
    ctx.section("random types", n, |c| {
        let (reg, id) = deep_type(&mut c.rng, 4, false);
        let mut b = vec![];
        let want = reg.sample(id, &mut c.rng, &mut b);
        b.push(0x5A);
        c.input(format!("type {} bytes {}", reg.show(id), hex(&b)));
        expect_decode("decode", &decode(&reg, id, &b), &want, 1)
    });
    let n = ctx.n(300, 5000);
    ctx.section("wide shapes", n, |c| {
        let mut reg = Reg::default();
        let u = reg.add(Ty::Prim(P::U16));
        let k = c.rng.size(300, 3000);
        let kind = c.rng.below(6);
        let named: Vec<FieldT> = (0..k).map(|i| FieldT { name: Some(format!("f{i}")), ty: u }).collect();
        let mut mixed = named.clone();
        if kind == 4 && k > 0 {
            let i = c.rng.below(k);
            mixed[i].name = None;
        }
        let t = match kind {
            0 => Ty::Tuple(vec![u; k]),
            1 => Ty::Array(u, k),
            2 => Ty::Seq(u),
            3 => Ty::Struct(named),
            4 => Ty::Struct(mixed),
            _ => Ty::Enum(vec![
                VariantT { name: "A".into(), index: 7, fields: vec![] },
                VariantT { name: "B".into(), index: c.rng.below(7) as u8, fields: named },
                VariantT { name: "C".into(), index: 200, fields: vec![FieldT { name: None, ty: u }] },
            ]),
        };
        let id = reg.add(t);
        let mut b = vec![];
        if kind == 2 {
            compact(k as u128, &mut b);
            for i in 0..k {
                b.extend_from_slice(&(i as u16 ^ 0x1234).to_le_bytes());
            }
        } else {
            reg.sample(id, &mut c.rng, &mut b);
        }
        let mut rest = &b[..];
        let want = reg.decode(id, &mut rest).ok_or("reference failed")?;
        c.input(format!("kind {kind} with {k} items, bytes {}", hex(&b)));
        expect_decode("decode", &decode(&reg, id, &b), &want, 0)
    });
    // many items, beyond any preallocation limit
    ctx.section("long lists", 6, |c| {
        let mut reg = Reg::default();
        let u = reg.add(Ty::Prim(P::U8));
        let s = reg.add(Ty::Seq(u));
        let k = [1023usize, 1024, 1025, 5000, 70000, 16384][c.idx as usize];
        let mut b = vec![];
        compact(k as u128, &mut b);
        for i in 0..k {
            b.push((i % 251) as u8);
        }
        c.input(format!("Vec<u8> of {k} items"));
        let mut rest = &b[..];
        let want = reg.decode(s, &mut rest).ok_or("reference failed")?;
        let got = decode(&reg, s, &b);
        check(got.0.as_ref().ok() == Some(&want) && got.1 == 0, || "long list differs".into())
    });
}

/// Corrupt some bytes.
fn corrupt(rng: &mut Rng, b: &mut Vec<u8>) {
    match rng.below(4) {
        0 => b.truncate(rng.below(b.len() + 1)),
        1 => {
            for _ in 0..rng.range(1, 3) {
                if !b.is_empty() {
                    let i = rng.below(b.len());
                    b[i] = rng.u64() as u8;
                }
            }
        }
        2 => {
            if !b.is_empty() {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
        }
        _ => {
            let n = rng.below(12);
            *b = rng.bytes(n);
        }
    }
}
fn printable(v: &Value<u32>) -> bool {
    let mut ok = true;
    gen::map_prims(v, &|p| p.clone());
    fn walk(v: &Value<u32>, ok: &mut bool) {
        match &v.value {
            ValueDef::Primitive(Primitive::U256(_) | Primitive::I256(_)) => *ok = false,
            ValueDef::Composite(c) => c.values().for_each(|x| walk(x, ok)),
            ValueDef::Variant(x) => x.values.values().for_each(|x| walk(x, ok)),
            _ => {}
        }
    }
    walk(v, &mut ok);
    ok
}
pub fn s04(ctx: &mut Ctx) {
    ctx.rule("bounded: random types of depth at most 4, valid bytes and corrupted or truncated ones; both decoders run on each and are compared with each other and with the reference decoder");
    let n = ctx.n(12000, 400000);
    ctx.section("both decoders", n, |c| {
        let (reg, id) = deep_type(&mut c.rng, 4, true);
        if reg.has_zst_list(id) {
            return Ok(());
        }
        let mut b = vec![];
        reg.sample(id, &mut c.rng, &mut b);
        if c.rng.chance(2, 3) {
            corrupt(&mut c.rng, &mut b);
        } else {
            b.push(9);
        }
        c.input(format!("type {} bytes {}", reg.show(id), hex(&b)));
        crate::ctx::set_current_input(&c.input);
        let plain = decode(&reg, id, &b);
        let mut cur = &b[..];
        let tr = tracing::decode_as_type(&mut cur, id, &reg);
        match (&plain.0, tr) {
            (Ok(a), Ok(t)) => {
                check(*a == t, || format!("plain gave {a:?}, tracing gave {t:?}"))?;
                check(plain.1 == cur.len(), || format!("plain left {} bytes, tracing {}", plain.1, cur.len()))?;
                printable(a);
                let mut r = &b[..];
                let want = reg.decode(id, &mut r);
                check(want.as_ref() == Some(a), || format!("reference gives {want:?}"))
            }
            (Err(e), Err(t)) => {
                // 256-bit numbers decoded so far cannot be displayed (they have no text form)
                if reg.has_big_int(id) {
                    return Ok(());
                }
                let s = no_panic("displaying the error", || t.to_string())?;
                LONGEST.with(|l| l.set(0));
                let _ = reg.decode(id, &mut &b[..]);
                if LONGEST.with(|l| l.get()) > 100_000_000 {
                    return Ok(());
                }
                check(s.contains(e.as_str()), || format!("plain error: {e}; tracing error: {s}"))
            }
            (Ok(_), Err(t)) => {
                let s = no_panic("displaying the error", || t.to_string()).unwrap_or_default();
                if s.contains("100M") { Ok(()) } else { Err(format!("plain succeeds, tracing fails: {s}")) }
            }
            (Err(e), Ok(t)) => Err(format!("plain fails with {e}, tracing gives {t:?}")),
        }
    });
}

/// Where decoding of the type fails: the way there, and what was decoded until then. None if that is in the value itself.
type Place<T> = Option<(String, T)>;
fn ref_place(reg: &Reg, id: u32, b: &mut &[u8]) -> Result<Value<u32>, Place<Value<u32>>> {
    let at = |c: Result<Composite<u32>, Place<Composite<u32>>>| match c {
        Ok(c) => Ok(Value { value: ValueDef::Composite(c), context: id }),
        Err(p) => Err(p.map(|(w, c)| (w, Value { value: ValueDef::Composite(c), context: id }))),
    };
    match reg.get(id) {
        Ty::Seq(t) => {
            let n = uncompact(b).ok_or(None)?;
            if n > 100_000_000 {
                return Err(None);
            }
            at(ref_items(reg, (0..n as usize).map(|_| (None, *t)), false, b))
        }
        Ty::Array(t, n) => at(ref_items(reg, (0..*n).map(|_| (None, *t)), false, b)),
        Ty::Tuple(ts) => at(ref_items(reg, ts.iter().map(|t| (None, *t)), false, b)),
        Ty::Struct(fs) => at(ref_fields(reg, fs, b)),
        Ty::Enum(vs) => {
            let i = take(b, 1).ok_or(None)?[0];
            let var = vs.iter().find(|x| x.index == i).ok_or(None)?;
            let def = |values| Value { value: ValueDef::Variant(Variant { name: var.name.clone(), values }), context: id };
            match ref_fields(reg, &var.fields, b) {
                Ok(c) => Ok(def(c)),
                Err(p) => {
                    let (w, c) = p.unwrap_or((String::new(), Composite::Unnamed(vec![])));
                    Err(Some((format!(".{}{w}", var.name), def(c))))
                }
            }
        }
        // a compact number is inside of what holds it
        Ty::Compact(t) => {
            let mut rest = *b;
            match reg.decode(id, &mut rest) {
                Some(v) => {
                    *b = rest;
                    Ok(v)
                }
                None => Err(in_compact(reg, *t)),
            }
        }
        _ => reg.decode(id, b).ok_or(None),
    }
}
fn in_compact(reg: &Reg, t: u32) -> Place<Value<u32>> {
    let (seg, named, inner) = match reg.get(t) {
        Ty::Tuple(ts) => ("[0]".to_string(), None, ts[0]),
        Ty::Struct(fs) => (fs[0].name.clone().unwrap_or("[0]".into()), fs[0].name.clone(), fs[0].ty),
        _ => return None,
    };
    let p = in_compact(reg, inner);
    let (w, vals) = match p {
        None => (String::new(), vec![]),
        Some((w, v)) => (w, vec![v]),
    };
    let c = match named {
        Some(n) => Composite::Named(vals.into_iter().map(|v| (n.clone(), v)).collect()),
        None => Composite::Unnamed(vals),
    };
    Some((format!(".{seg}{w}"), Value { value: ValueDef::Composite(c), context: t }))
}
fn ref_fields(reg: &Reg, fs: &[FieldT], b: &mut &[u8]) -> Result<Composite<u32>, Place<Composite<u32>>> {
    let named = !fs.is_empty() && fs.iter().all(|f| f.name.is_some());
    ref_items(reg, fs.iter().map(|f| (f.name.clone(), f.ty)), named, b)
}
fn ref_items(reg: &Reg, items: impl Iterator<Item = (Option<String>, u32)>, named: bool, b: &mut &[u8]) -> Result<Composite<u32>, Place<Composite<u32>>> {
    let mut names = vec![];
    let mut vals = vec![];
    let comp = |names: Vec<String>, vals: Vec<Value<u32>>| if named { Composite::Named(names.into_iter().zip(vals).collect()) } else { Composite::Unnamed(vals) };
    for (i, (name, ty)) in items.enumerate() {
        let seg = if named { name.clone().unwrap() } else { format!("[{i}]") };
        names.push(name.unwrap_or_default());
        match ref_place(reg, ty, b) {
            Ok(v) => vals.push(v),
            Err(None) => return Err(Some((format!(".{seg}"), comp(names, vals)))),
            Err(Some((w, v))) => {
                vals.push(v);
                return Err(Some((format!(".{seg}{w}"), comp(names, vals))));
            }
        }
    }
    Ok(comp(names, vals))
}
pub fn s12(ctx: &mut Ctx) {
    ctx.rule("bounded: random types of depth at most 4 (no 256-bit integers), corrupted or truncated bytes; the message of the tracing error against the place and the partial value that a reference finds, and the cause that the plain decoder gives");
    let n = ctx.n(14000, 400000);
    ctx.section("tracing messages", n, |c| {
        let (reg, id) = deep_type(&mut c.rng, 4, false);
        if reg.has_zst_list(id) {
            return Ok(());
        }
        let mut b = vec![];
        reg.sample(id, &mut c.rng, &mut b);
        if c.rng.bool() {
            let n = c.rng.below(b.len() + 1);
            b.truncate(n);
        } else {
            corrupt(&mut c.rng, &mut b);
        }
        c.input(format!("type {} bytes {}", reg.show(id), hex(&b)));
        crate::ctx::set_current_input(&c.input);
        let Err(p) = ref_place(&reg, id, &mut &b[..]) else { return Ok(()) };
        LONGEST.with(|l| l.set(0));
        let _ = reg.decode(id, &mut &b[..]);
        let long = LONGEST.with(|l| l.get()) > 100_000_000;
        let Err(t) = tracing::decode_as_type(&mut &b[..], id, &reg) else { return Err("tracing succeeds where the bytes are not of the type".into()) };
        let s = no_panic("displaying the error", || t.to_string())?;
        let (Err(why), _) = decode(&reg, id, &b) else { return Err("the plain decoder succeeds".into()) };
        let Some((w, v)) = p else {
            return check(s == format!("Error decoding value: {why}") || (long && s.starts_with("Error decoding value: ")), || format!("message {s:?}, expected no place and the cause {why}"));
        };
        let mut text = String::new();
        scale_value::stringify::to_writer_custom().pretty().format_context(|id: &u32, w: &mut &mut String| { use std::fmt::Write; write!(w, "{id:?}") }).add_custom_formatter(|v, w| scale_value::stringify::custom_formatters::format_hex(v, w)).write(&v, &mut text).map_err(|e| e.to_string())?;
        let head = format!("Error decoding value at {w}: ");
        let tail = format!("\nDecoded so far:\n\n{text}");
        if long {
            return check(s.starts_with(&head) && s.ends_with(&tail), || format!("message {s:?}, expected {head}..{tail}"));
        }
        check(s == format!("{head}{why}{tail}"), || format!("message {s:?}, expected {:?}", format!("{head}{why}{tail}")))
    });
}

pub fn s05(ctx: &mut Ctx) {
    ctx.rule("bounded: random types of depth at most 4 (no 256-bit integers), a random value of each: bytes, decode, encode, compare bytes; decode again, compare values; with and without context");
    let n = ctx.n(10000, 500000);
    ctx.section("round trip", n, |c| {
        let (reg, id) = deep_type(&mut c.rng, 4, false);
        let mut b = vec![];
        reg.sample(id, &mut c.rng, &mut b);
        c.input(format!("type {} bytes {}", reg.show(id), hex(&b)));
        crate::ctx::set_current_input(&c.input);
        let (v, rest) = decode(&reg, id, &b);
        let v = v.map_err(|e| format!("decode failed: {e}"))?;
        check(rest == 0, || format!("{rest} bytes left"))?;
        let b2 = encode_s(&v, &reg, id).map_err(|e| format!("re-encode of {v:?} failed: {e}"))?;
        check(b2 == b, || format!("re-encoded as {}", hex(&b2)))?;
        let b3 = encode_s(&gen::strip(&v), &reg, id).map_err(|e| format!("re-encode without context failed: {e}"))?;
        check(b3 == b, || "re-encoding without context differs".into())?;
        let (v2, _) = decode(&reg, id, &b2);
        check(v2.as_ref() == Ok(&v), || format!("decoding again gives {v2:?}"))
    });
    let n = ctx.n(400, 5000);
    ctx.section("bit sequences", n, |c| {
        let mut reg = Reg::default();
        let id = reg.add(Ty::Bits(STORES[c.idx as usize % 4], ORDERS[c.idx as usize / 4 % 2]));
        let n = c.rng.size(200, 70000);
        let bits: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
        let mut b = vec![];
        encode_bits(&bits, STORES[c.idx as usize % 4], ORDERS[c.idx as usize / 4 % 2], &mut b);
        c.input(format!("{} bytes {}", reg.show(id), hex(&b)));
        let (v, rest) = decode(&reg, id, &b);
        let v = v?;
        check(rest == 0 && v.value == ValueDef::BitSequence(bitseq(&bits)), || format!("decoded {v:?}"))?;
        let b2 = encode_s(&v, &reg, id)?;
        check(b2 == b, || format!("re-encoded as {}", hex(&b2)))
    });
}

/// A value loosely shaped like the type: sometimes exactly, sometimes with defects.
fn near_value(reg: &Reg, id: u32, rng: &mut Rng) -> Value<()> {
    let mut b = vec![];
    let v = gen::strip(&reg.sample(id, rng, &mut b));
    perturb(v, rng, 3)
}
fn perturb(v: Value<()>, rng: &mut Rng, odds: usize) -> Value<()> {
    if rng.chance(1, 6 * odds) {
        return gen::plain(rng, 1, true);
    }
    if rng.chance(1, 4 * odds) {
        return if rng.bool() { Value::unnamed_composite([v]) } else { Value::named_composite([("w", v)]) };
    }
    let mut pc = |c: Composite<()>, rng: &mut Rng| match c {
        Composite::Named(xs) => {
            let mut xs: Vec<_> = xs.into_iter().map(|(k, x)| (k, perturb(x, rng, odds))).collect();
            if rng.chance(1, 12) && !xs.is_empty() {
                xs.pop();
            }
            if rng.chance(1, 12) {
                xs.push(("extra".into(), Value::bool(true)));
            }
            if rng.chance(1, 10) {
                return Composite::Unnamed(xs.into_iter().map(|x| x.1).collect());
            }
            if rng.chance(1, 6) {
                xs.reverse();
            }
            Composite::Named(xs)
        }
        Composite::Unnamed(xs) => {
            let mut xs: Vec<_> = xs.into_iter().map(|x| perturb(x, rng, odds)).collect();
            if rng.chance(1, 12) && !xs.is_empty() {
                xs.pop();
            }
            if rng.chance(1, 12) {
                xs.push(Value::bool(true));
            }
            if xs.len() == 1 && rng.chance(1, 3) {
                return match &xs[0].value {
                    ValueDef::Composite(c) => c.clone(),
                    _ => Composite::Unnamed(xs),
                };
            }
            Composite::Unnamed(xs)
        }
    };
    let value = match v.value {
        ValueDef::Composite(c) => ValueDef::Composite(pc(c, rng)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name, values: pc(x.values, rng) }),
        x => x,
    };
    Value { value, context: () }
}
pub fn s06(ctx: &mut Ctx) {
    ctx.rule("bounded: random types with values that match or nearly match, encoded after a random prefix and to an empty buffer; distinct = distinct (type, value)");
    let n = ctx.n(12000, 400000);
    ctx.section("prefix kept", n, |c| {
        let (reg, id) = gen_type(&mut c.rng, 3, true);
        let v = near_value(&reg, id, &mut c.rng);
        let k = c.rng.below(6);
        let prefix = c.rng.bytes(k);
        c.input(format!("type {} value {v:?} after {}", reg.show(id), hex(&prefix)));
        crate::ctx::set_current_input(&c.input);
        let mut out = prefix.clone();
        let r = v.encode_as_type_to(id, &reg, &mut out);
        check(out.starts_with(&prefix), || format!("buffer is now {}", hex(&out)))?;
        let fresh = encode(&v, &reg, id);
        match (r, fresh) {
            (Ok(()), Ok(f)) => check(out[prefix.len()..] == f[..], || format!("appended {} but alone encodes to {}", hex(&out[prefix.len()..]), hex(&f))),
            (Err(_), Err(_)) => {
                if matches!(v.value, ValueDef::Composite(_)) {
                    check(out == prefix, || format!("failed but wrote {}", hex(&out[prefix.len()..])))
                } else {
                    Ok(())
                }
            }
            (a, b) => Err(format!("depends on the buffer: {a:?} with a prefix, {b:?} without")),
        }
    });
    let n = ctx.n(500, 5000);
    ctx.section("which error", n, |c| {
        // A one-item list to an array of another length: the mismatch reported is that of the list
        // itself, not of the item it was unwrapped to.
        let mut reg = Reg::default();
        let u = reg.add(Ty::Prim(P::U8));
        let len = c.rng.range(2, 9);
        let id = reg.add(Ty::Array(u, len));
        let bad = Value::unnamed_composite([if c.rng.bool() { Value::string("x") } else { Value::unnamed_composite([Value::bool(true), Value::bool(true)]) }]);
        c.input(format!("type {} value {bad:?}", reg.show(id)));
        let e = encode(&bad, &reg, id).err().ok_or("encoded")?;
        match e.kind() {
            scale_encode::error::ErrorKind::WrongLength { actual_len: 1, expected_len } if *expected_len == len => Ok(()),
            k => Err(format!("error is {k:?}")),
        }
    });
}

pub fn s07(ctx: &mut Ctx) {
    ctx.rule("bounded: lists (named or not) of up to 70 items and of 16383/16384 items against sequence and array types; expected bytes are the prefix and the items' own encodings");
    let n = ctx.n(6000, 150000);
    ctx.section("lists", n, |c| {
        let mut reg = Reg::default();
        let item = reg.gen(&mut c.rng, 1, false);
        let k = match c.rng.below(8) {
            0 => c.rng.range(60, 70),
            1 => 1,
            _ => c.rng.size(6, 70000),
        };
        let seq = c.rng.bool();
        let alen = if c.rng.bool() { k } else { c.rng.below(7) };
        let id = if seq { reg.add(Ty::Seq(item)) } else { reg.add(Ty::Array(item, alen)) };
        let vals: Vec<Value<()>> = (0..k).map(|_| near_value(&reg, item, &mut c.rng)).collect();
        let comp = if c.rng.chance(1, 3) {
            Composite::Named(vals.iter().cloned().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect())
        } else {
            Composite::Unnamed(vals.clone())
        };
        let v = Value { value: ValueDef::Composite(comp), context: () };
        c.input(format!("type {} value {v:?}", reg.show(id)));
        crate::ctx::set_current_input(&c.input);
        let items: Option<Vec<Vec<u8>>> = vals.iter().map(|v| encode(v, &reg, item).ok()).collect();
        let got = encode(&v, &reg, id);
        let as_is = match (&items, seq) {
            (Some(bs), true) => {
                let mut o = vec![];
                compact(k as u128, &mut o);
                bs.iter().for_each(|b| o.extend_from_slice(b));
                Some(o)
            }
            (Some(bs), false) if alen == k => Some(bs.concat()),
            _ => None,
        };
        match as_is {
            Some(w) => match_enc(got.map_err(|e| e.to_string()), Some(w)),
            // not as it is: only removing a one-value wrapper may help
            None => {
                if k == 1 && (seq || alen != 1) {
                    // the type has nothing to remove: what is left is the value without its wrappers
                    let mut inner = &vals[0];
                    while let ValueDef::Composite(c) = &inner.value {
                        match c.values().next() {
                            Some(x) if c.len() == 1 => inner = x,
                            _ => break,
                        }
                    }
                    return match (got, encode(inner, &reg, id)) {
                        (Ok(a), Ok(b)) if a == b => Ok(()),
                        (Err(_), Err(_)) => Ok(()),
                        (a, b) => Err(format!("got {a:?}, but the one value inside gives {b:?}")),
                    };
                }
                if !seq && alen == 1 {
                    // the length-one array is removed: the item type alone has to take the value
                    return match (got, encode(&v, &reg, item)) {
                        (Ok(a), Ok(b)) if a == b => Ok(()),
                        (Err(_), Err(_)) => Ok(()),
                        (Ok(_), Err(_)) | (Err(_), Ok(_)) if k == 1 => Ok(()),
                        (Ok(a), Ok(b)) if k == 1 && a != b => Ok(()),
                        (a, b) => Err(format!("got {a:?}, but the item type alone gives {b:?}")),
                    };
                }
                match got {
                    Ok(b) => Err(format!("encoded {} but it does not fit", hex(&b))),
                    Err(e) if !seq && alen != k => match e.kind() {
                        scale_encode::error::ErrorKind::WrongLength { actual_len, expected_len } if *actual_len == k && *expected_len == alen => Ok(()),
                        x => Err(format!("expected a wrong length error, got {x:?}")),
                    },
                    Err(_) => Ok(()),
                }
            }
        }
    });
    let n = ctx.n(600, 6000);
    ctx.section("short arrays", n, |c| {
        let mut reg = Reg::default();
        let item = if c.rng.bool() { reg.add(Ty::Prim(P::U8)) } else { reg.gen(&mut c.rng, 0, false) };
        let (k, alen) = ((c.idx % 4) as usize, (c.idx / 4 % 4) as usize);
        let id = reg.add(Ty::Array(item, alen));
        // no item is a composite of one value, so nothing but the list itself can be removed
        let vals: Vec<Value<()>> = (0..k).map(|_| near_value(&reg, item, &mut c.rng)).collect();
        c.input(format!("type {} values {vals:?}", reg.show(id)));
        let flat = vals.iter().all(|v| !matches!(v.value, ValueDef::Composite(_) | ValueDef::BitSequence(_)));
        if !flat || alen == 1 || k == alen {
            return Ok(());
        }
        // a prefix written to the output would show too
        let mut out = vec![];
        let r = scale_value::scale::encode_as_type(&Value::unnamed_composite(vals), id, &reg, &mut out);
        check(r.is_err() && out.is_empty(), || format!("{k} values against a length of {alen}: {r:?}, wrote {}", hex(&out)))
    });
    ctx.section("long lists", 12, |c| {
        let mut reg = Reg::default();
        let u = reg.add(Ty::Prim(P::U8));
        let k = [0usize, 1, 63, 64, 65, 255, 256, 16383, 16384, 65535, 65536, 70000][c.idx as usize];
        let s = reg.add(Ty::Seq(u));
        let a = reg.add(Ty::Array(u, k));
        let b: Vec<u8> = (0..k).map(|i| i as u8).collect();
        c.input(format!("{k} bytes"));
        let v = Value::from_bytes(&b);
        let mut w = vec![];
        compact(k as u128, &mut w);
        w.extend_from_slice(&b);
        check(encode(&v, &reg, s).ok().as_ref() == Some(&w), || "sequence encoding differs".into())?;
        check(encode(&v, &reg, a).ok().as_ref() == Some(&b), || "array encoding differs".into())?;
        let a2 = reg.add(Ty::Array(u, k + 1));
        check(k == 0 && false || encode(&v, &reg, a2).is_err() || (k == 1 && false), || "encoded to a longer array".into())
    });
}

pub fn s08(ctx: &mut Ctx) {
    ctx.rule("bounded: lists of up to 140 bools/0/1 (signed or not), with and without one other value, against all eight bit formats; bit sequence values against the same");
    let n = ctx.n(8000, 200000);
    ctx.section("lists to bits", n, |c| {
        let mut reg = Reg::default();
        let (s, o) = (*c.rng.pick(&STORES), *c.rng.pick(&ORDERS));
        let id = reg.add(Ty::Bits(s, o));
        let mut bits = gen::gen_bits(&mut c.rng);
        if bits.len() == 1 {
            bits.push(true);
        }
        let mut vals: Vec<Value<()>> = bits
            .iter()
            .map(|b| match c.rng.below(3) {
                0 => Value::bool(*b),
                1 => Value::u128(*b as u128),
                _ => Value::i128(*b as i128),
            })
            .collect();
        let bad = c.rng.chance(1, 3) && !vals.is_empty();
        let mut at = 0;
        if bad {
            at = c.rng.below(vals.len());
            vals[at] = match c.rng.below(6) {
                0 => Value::u128(c.rng.edgy_u128().max(2)),
                1 => Value::i128(match c.rng.edgy_i128() {
                    0 | 1 => -1,
                    x => x,
                }),
                2 => Value::i128(-1),
                3 => Value::char('1'),
                4 => Value::string("true"),
                _ => Value::unnamed_composite([Value::bool(true)]),
            };
        }
        let comp = if c.rng.chance(1, 4) {
            Composite::Named(vals.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect())
        } else {
            Composite::Unnamed(vals)
        };
        let v = Value { value: ValueDef::Composite(comp), context: () };
        c.input(format!("type {} value {v:?}", reg.show(id)));
        let mut out = vec![1, 2, 3];
        let r = v.encode_as_type_to(id, &reg, &mut out);
        if bad {
            let e = r.err().ok_or_else(|| format!("accepted, wrote {}", hex(&out)))?;
            check(out == [1, 2, 3], || format!("failed but wrote {}", hex(&out)))?;
            let path = e.context().path().to_string();
            check(path.contains(&format!("[{at}]")), || format!("error is at {path:?}, expected item {at}"))
        } else {
            let mut w = vec![1, 2, 3];
            encode_bits(&bits, s, o, &mut w);
            r.map_err(|e| e.to_string())?;
            check(out == w, || format!("encoded {}, expected {}", hex(&out), hex(&w)))
        }
    });
    let n = ctx.n(1000, 20000);
    ctx.section("bit sequence values", n, |c| {
        let mut reg = Reg::default();
        let (s, o) = (STORES[c.idx as usize % 4], ORDERS[c.idx as usize / 4 % 2]);
        let id = reg.add(Ty::Bits(s, o));
        let n = c.rng.size(140, 70000);
        let bits: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
        c.input(format!("type {} bits {bits:?}", reg.show(id)));
        let mut w = vec![];
        encode_bits(&bits, s, o, &mut w);
        match_enc(encode_s(&Value::bit_sequence(bitseq(&bits)), &reg, id), Some(w))
    });
}

pub fn s09(ctx: &mut Ctx) {
    ctx.rule("bounded: random types (no zero-sized list items), random, corrupted and truncated bytes and huge claimed lengths; panics, over-reads, non-suffix remainders and allocations beyond a linear bound are failures; results compared with the reference decoder");
    let n = ctx.n(15000, 600000);
    let mut one = |c: &mut Case, reg: &Reg, id: u32, b: &[u8]| -> Result<(), String> {
        c.input(format!("type {} bytes {}", reg.show(id), hex(b)));
        crate::ctx::set_current_input(&c.input);
        let (r, big, peak) = crate::alloc::measure(|| {
            no_panic("decode", || {
                let mut cur = b;
                let r = scale::decode_as_type(&mut cur, id, reg);
                (r, cur.as_ptr() as usize, cur.len())
            })
        });
        let (r, ptr, len) = r?;
        check(big <= 600_000 + 600 * b.len(), || format!("a single allocation of {big} bytes for {} input bytes", b.len()))?;
        check(peak <= 2_000_000 + 4096 * b.len(), || format!("{peak} bytes live for {} input bytes", b.len()))?;
        if r.is_ok() {
            check(len <= b.len() && ptr == b.as_ptr() as usize + (b.len() - len), || "the remaining bytes are not a suffix of the input".into())?;
        }
        let mut cur = b;
        let want = reg.decode(id, &mut cur);
        match (r, want) {
            (Ok(v), Some(w)) => check(v == w && len == cur.len(), || format!("decoded {v:?}, reference {w:?}")),
            (Ok(v), None) => Err(format!("decoded {v:?} but the reference rejects the bytes")),
            (Err(e), Some(w)) => Err(format!("failed with {e} but the reference gives {w:?}")),
            (Err(_), None) => Ok(()),
        }
    };
    ctx.section("arbitrary bytes", n, |c| {
        let (reg, id) = deep_type(&mut c.rng, 4, true);
        if reg.has_zst_list(id) {
            return Ok(());
        }
        let mut b = vec![];
        if c.rng.chance(3, 4) {
            reg.sample(id, &mut c.rng, &mut b);
            corrupt(&mut c.rng, &mut b);
        } else {
            let k = c.rng.below(40);
            b = c.rng.bytes(k);
        }
        one(c, &reg, id, &b)
    });
    let n = ctx.n(1500, 20000);
    ctx.section("huge lengths", n, |c| {
        let mut reg = Reg::default();
        let mut t = loop {
            let t = reg.gen(&mut c.rng, 1, false);
            if reg.min_size(t) > 0 && !reg.has_zst_list(t) {
                break t;
            }
        };
        for _ in 0..c.rng.range(1, 3) {
            t = reg.add(Ty::Seq(t));
        }
        let mut b = vec![];
        let nest = c.rng.below(2);
        for _ in 0..nest {
            compact(c.rng.below(3) as u128, &mut b);
        }
        let claim = *c.rng.pick(&[1u128 << 14, 1 << 20, (1 << 30) - 1, 1 << 30, u32::MAX as u128, 1 << 32, u64::MAX as u128, u128::MAX]);
        compact(claim, &mut b);
        let k = c.rng.below(60);
        b.extend(c.rng.bytes(k));
        one(c, &reg, t, &b)
    });
    let n = ctx.n(2000, 20000);
    ctx.section("by fields", n, |c| {
        let mut reg = Reg::default();
        let fs = reg.gen_fields(&mut c.rng, 2, true);
        if fs.iter().any(|f| reg.has_zst_list(f.ty)) {
            return Ok(());
        }
        let mut b = vec![];
        reg.sample_fields(&fs, &mut c.rng, &mut b);
        corrupt(&mut c.rng, &mut b);
        c.input(format!("fields {} bytes {}", reg.show_fields(&fs), hex(&b)));
        let r = no_panic("decode_as_fields", || dec_fields(&reg, &fs, &b))?;
        let mut cur = &b[..];
        let w = reg.decode_fields(&fs, &mut cur);
        check(r.0.as_ref().ok() == w.as_ref(), || format!("decoded {:?}, reference {w:?}", r.0))
    });
}

/// wrap a type once
fn wrap_type(reg: &mut Reg, rng: &mut Rng, id: u32, arrays: bool) -> u32 {
    let t = match rng.below(4) {
        1 if arrays => Ty::Array(id, 1),
        0 | 1 => Ty::Tuple(vec![id]),
        2 => Ty::Struct(vec![FieldT { name: None, ty: id }]),
        _ => Ty::Struct(vec![FieldT { name: Some(format!("wrapper{}", rng.below(3))), ty: id }]),
    };
    reg.add(t)
}
pub fn s10(ctx: &mut Ctx) {
    ctx.rule("bounded: random types of depth at most 2 with values that encode to them, up to three wrappers on the type or the value side; expected bytes are those without wrappers");
    let n = ctx.n(8000, 200000);
    ctx.section("type side", n, |c| {
        let mut reg = Reg::default();
        let id = reg.gen(&mut c.rng, 2, false);
        let v = near_value(&reg, id, &mut c.rng);
        if matches!(&v.value, ValueDef::Composite(x) if x.len() == 1) {
            return Ok(());
        }
        // a value with fields that a newtype does not have
        let newtype = match reg.get(id) {
            Ty::Tuple(ts) => ts.len() == 1,
            Ty::Struct(fs) => fs.len() == 1,
            Ty::Array(_, n) => *n == 1,
            _ => false,
        };
        if newtype && matches!(&v.value, ValueDef::Composite(_)) {
            return Ok(());
        }
        let Ok(b) = encode(&v, &reg, id) else { return Ok(()) };
        let mut w = id;
        // length-one arrays are only seen through by values with several items
        let arrays = matches!(&v.value, ValueDef::Composite(_));
        for _ in 0..c.rng.range(1, 3) {
            w = wrap_type(&mut reg, &mut c.rng, w, arrays);
        }
        c.input(format!("type {} value {v:?}", reg.show(w)));
        crate::ctx::set_current_input(&c.input);
        let innermost_enum_array_mix = matches!(&v.value, ValueDef::Variant(_) | ValueDef::Primitive(_) | ValueDef::BitSequence(_));
        let _ = innermost_enum_array_mix;
        match_enc(encode_s(&v, &reg, w), Some(b))
    });
    let n = ctx.n(8000, 200000);
    ctx.section("value side", n, |c| {
        let mut reg = Reg::default();
        let id = reg.gen(&mut c.rng, 2, false);
        let ok_type = match reg.get(id) {
            Ty::Prim(_) | Ty::Compact(_) | Ty::Enum(_) => true,
            Ty::Tuple(ts) => ts.len() > 1,
            Ty::Struct(fs) => fs.len() > 1,
            _ => false,
        };
        if !ok_type {
            return Ok(());
        }
        let v = near_value(&reg, id, &mut c.rng);
        let Ok(b) = encode(&v, &reg, id) else { return Ok(()) };
        let mut w = v.clone();
        for _ in 0..c.rng.range(1, 3) {
            w = if c.rng.bool() { Value::unnamed_composite([w]) } else { Value::named_composite([("wrapper", w)]) };
        }
        c.input(format!("type {} value {w:?}", reg.show(id)));
        crate::ctx::set_current_input(&c.input);
        match_enc(encode_s(&w, &reg, id), Some(b))
    });
}

fn dec_fields(reg: &Reg, fs: &[FieldT], b: &[u8]) -> (Result<Composite<u32>, String>, usize) {
    let mut cur = b;
    let mut it = fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty });
    let r = scale::decode_as_fields(&mut cur, &mut it, reg).map_err(|e| e.to_string());
    (r, cur.len())
}
fn dec_fields_c(reg: &Reg, fs: &[FieldT], b: &[u8]) -> (Result<Composite<()>, String>, usize) {
    use scale_decode::DecodeAsFields;
    let mut cur = b;
    let mut it = fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty });
    let r = Composite::<()>::decode_as_fields(&mut cur, &mut it, reg).map_err(|e| e.to_string());
    (r, cur.len())
}
fn dec_fields_v(reg: &Reg, fs: &[FieldT], b: &[u8]) -> (Result<Value<()>, String>, usize) {
    use scale_decode::DecodeAsFields;
    let mut cur = b;
    let mut it = fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty });
    let r = Value::<()>::decode_as_fields(&mut cur, &mut it, reg).map_err(|e| e.to_string());
    (r, cur.len())
}
pub fn s11(ctx: &mut Ctx) {
    ctx.rule("bounded: random field lists (up to 5 fields, depth 3), valid and corrupted bytes, all three decoding entry points; the decoded composite encoded by fields, with names shuffled or dropped");
    let n = ctx.n(8000, 200000);
    ctx.section("fields", n, |c| {
        let mut reg = Reg::default();
        let fs = reg.gen_fields(&mut c.rng, 3, false);
        let sid = reg.add(Ty::Struct(fs.clone()));
        if reg.has_zst_list(sid) {
            return Ok(());
        }
        let mut b = vec![];
        reg.sample_fields(&fs, &mut c.rng, &mut b);
        let valid = c.rng.chance(2, 3);
        if !valid {
            corrupt(&mut c.rng, &mut b);
        }
        let mut full = b.clone();
        full.push(3);
        c.input(format!("fields {} bytes {}", reg.show_fields(&fs), hex(&full)));
        crate::ctx::set_current_input(&c.input);
        let (st, rest) = decode(&reg, sid, &full);
        let a = dec_fields(&reg, &fs, &full);
        let p = dec_fields_c(&reg, &fs, &full);
        let q = dec_fields_v(&reg, &fs, &full);
        match &st {
            Err(e) => {
                check(a.0.is_err(), || format!("by struct: {e}; by fields: {:?}", a.0))?;
                check(p.0.is_err(), || format!("by struct: {e}; by fields into Composite: {:?}", p.0))?;
                return check(q.0.is_err(), || format!("by struct: {e}; by fields into Value: {:?}", q.0));
            }
            Ok(v) => {
                let ValueDef::Composite(comp) = &v.value else { return Err("struct did not decode to a composite".into()) };
                check(a.0.as_ref() == Ok(comp) && a.1 == rest, || format!("by struct {comp:?} leaving {rest}, by fields {a:?}"))?;
                let plain = gen::map_c(comp, &mut |_| ());
                check(p.0.as_ref() == Ok(&plain) && p.1 == rest, || format!("by struct {plain:?} leaving {rest}, by fields into Composite {p:?}"))?;
                let pv = Value { value: ValueDef::Composite(plain.clone()), context: () };
                check(q.0.as_ref() == Ok(&pv) && q.1 == rest, || format!("by struct {pv:?} leaving {rest}, by fields into Value {q:?}"))?;
                if !valid {
                    return Ok(());
                }
                let enc = |x: &Composite<()>| -> Result<Vec<u8>, String> {
                    let mut o = vec![];
                    let mut it = fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty });
                    x.encode_as_fields_to(&mut it, &reg, &mut o).map_err(|e| e.to_string())?;
                    Ok(o)
                };
                let encv = |x: &Value<()>| -> Result<Vec<u8>, String> {
                    let mut o = vec![];
                    let mut it = fs.iter().map(|f| Field { name: f.name.as_deref(), id: f.ty });
                    x.encode_as_fields_to(&mut it, &reg, &mut o).map_err(|e| e.to_string())?;
                    Ok(o)
                };
                match_enc(enc(&plain), Some(b.clone())).map_err(|e| format!("composite by fields: {e}"))?;
                match_enc(encv(&pv), Some(b.clone())).map_err(|e| format!("value by fields: {e}"))?;
                match_enc(encode_s(&pv, &reg, sid), Some(b.clone())).map_err(|e| format!("value by struct: {e}"))?;
                if let Composite::Named(xs) = &plain {
                    let mut r = xs.clone();
                    let k = c.rng.below(r.len());
                    r.rotate_left(k);
                    if c.rng.bool() {
                        r.reverse();
                    }
                    match_enc(enc(&Composite::Named(r)), Some(b.clone())).map_err(|e| format!("shuffled names: {e}"))?;
                    let u = Composite::Unnamed(xs.iter().map(|x| x.1.clone()).collect());
                    match_enc(enc(&u), Some(b.clone())).map_err(|e| format!("by position: {e}"))?;
                    let mut miss = xs.clone();
                    miss.pop();
                    if !miss.is_empty() {
                        match_enc(enc(&Composite::Named(miss)), None).map_err(|e| format!("missing field: {e}"))?;
                    }
                }
                for other in [
                    Value::bool(true),
                    Value { value: ValueDef::Variant(Variant { name: "X".into(), values: plain.clone() }), context: () },
                    Value::bit_sequence(bitseq(&[true])),
                ] {
                    match_enc(encv(&other), None).map_err(|e| format!("non-composite by fields: {e}"))?;
                }
                Ok(())
            }
        }
    });
    let n = ctx.n(2000, 20000);
    ctx.section("DecodeAsType for Value", n, |c| {
        use scale_decode::DecodeAsType;
        let (reg, id) = gen_type(&mut c.rng, 3, true);
        if reg.has_zst_list(id) {
            return Ok(());
        }
        let mut b = vec![];
        reg.sample(id, &mut c.rng, &mut b);
        if c.rng.chance(1, 3) {
            corrupt(&mut c.rng, &mut b);
        }
        c.input(format!("type {} bytes {}", reg.show(id), hex(&b)));
        let mut cur = &b[..];
        let r = Value::<()>::decode_as_type(&mut cur, id, &reg);
        let (p, rest) = decode(&reg, id, &b);
        match (r, p) {
            (Ok(a), Ok(p)) => check(a == gen::strip(&p) && cur.len() == rest, || format!("{a:?} but decode_as_type gives {p:?}")),
            (Err(_), Err(_)) => Ok(()),
            (a, p) => Err(format!("{a:?} but decode_as_type gives {p:?}")),
        }
    });
}
#[allow(unused)]
fn _use(e: &dyn Fn(u8) -> Vec<u8>) {
    let _ = 1u8.encode();
}
