//! Random values.
use crate::reg::{bitseq, gen_name};
use crate::rng::Rng;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

pub fn gen_prim(rng: &mut Rng, big: bool) -> Primitive {
    match rng.below(if big { 8 } else { 6 }) {
        0 => Primitive::Bool(rng.bool()),
        1 => Primitive::Char(rng.char()),
        2 => Primitive::String(rng.string(8)),
        3 | 4 => Primitive::U128(rng.edgy_u128()),
        5 => Primitive::I128(rng.edgy_i128()),
        6 => Primitive::U256(rng.bytes(32).try_into().unwrap()),
        _ => Primitive::I256(rng.bytes(32).try_into().unwrap()),
    }
}
pub fn gen_bits(rng: &mut Rng) -> Vec<bool> {
    let n = if rng.chance(1, 4) { rng.size(140, 5000) } else { rng.below(12) };
    (0..n).map(|_| rng.bool()).collect()
}
/// A random value whose contexts are fresh numbers.
pub fn gen_value(rng: &mut Rng, depth: usize, big: bool, ctx: &mut u32) -> Value<u32> {
    *ctx += 1;
    let context = *ctx;
    let value = match if depth == 0 { rng.below(5) } else { rng.below(12) } {
        0..=3 => ValueDef::Primitive(gen_prim(rng, big)),
        4 => ValueDef::BitSequence(bitseq(&gen_bits(rng))),
        5..=8 => ValueDef::Composite(gen_composite(rng, depth - 1, big, ctx)),
        _ => ValueDef::Variant(Variant { name: gen_name(rng), values: gen_composite(rng, depth - 1, big, ctx) }),
    };
    Value { value, context }
}
pub fn gen_composite(rng: &mut Rng, depth: usize, big: bool, ctx: &mut u32) -> Composite<u32> {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        _ => 2 + rng.size(4, 300),
    };
    if rng.bool() {
        Composite::Named((0..n).map(|_| (gen_name(rng), gen_value(rng, depth, big, ctx))).collect())
    } else {
        Composite::Unnamed((0..n).map(|_| gen_value(rng, depth, big, ctx)).collect())
    }
}
pub fn value(rng: &mut Rng, depth: usize, big: bool) -> Value<u32> {
    let mut ctx = 0;
    let mut v = gen_value(rng, depth, big, &mut ctx);
    for _ in 0..rng.layers(100) {
        ctx += 1;
        let mut vals = vec![v];
        if rng.chance(1, 4) {
            vals.insert(rng.below(2), gen_value(rng, 0, big, &mut ctx));
        }
        let c = if rng.bool() { Composite::Unnamed(vals) } else { Composite::Named(vals.into_iter().map(|v| (gen_name(rng), v)).collect()) };
        v = Value { value: if rng.bool() { ValueDef::Composite(c) } else { ValueDef::Variant(Variant { name: gen_name(rng), values: c }) }, context: ctx };
    }
    v
}
pub fn plain(rng: &mut Rng, depth: usize, big: bool) -> Value<()> {
    strip(&value(rng, depth, big))
}
/// Our own removal of context (independent of map_context).
pub fn strip<T>(v: &Value<T>) -> Value<()> {
    map(v, &mut |_| ())
}
pub fn map<T, U>(v: &Value<T>, f: &mut dyn FnMut(&T) -> U) -> Value<U> {
    let context = f(&v.context);
    let value = match &v.value {
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Composite(c) => ValueDef::Composite(map_c(c, f)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: map_c(&x.values, f) }),
    };
    Value { value, context }
}
pub fn map_c<T, U>(c: &Composite<T>, f: &mut dyn FnMut(&T) -> U) -> Composite<U> {
    match c {
        Composite::Named(xs) => {
            let mut out = vec![];
            for (k, x) in xs {
                out.push((k.clone(), map(x, f)));
            }
            Composite::Named(out)
        }
        Composite::Unnamed(xs) => {
            let mut out = vec![];
            for x in xs {
                out.push(map(x, f));
            }
            Composite::Unnamed(out)
        }
    }
}
/// Apply f to every primitive.
pub fn map_prims<T: Clone>(v: &Value<T>, f: &dyn Fn(&Primitive) -> Primitive) -> Value<T> {
    let mp = |c: &Composite<T>| match c {
        Composite::Named(xs) => Composite::Named(xs.iter().map(|(k, x)| (k.clone(), map_prims(x, f))).collect()),
        Composite::Unnamed(xs) => Composite::Unnamed(xs.iter().map(|x| map_prims(x, f)).collect()),
    };
    let value = match &v.value {
        ValueDef::Primitive(p) => ValueDef::Primitive(f(p)),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Composite(c) => ValueDef::Composite(mp(c)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: mp(&x.values) }),
    };
    Value { value, context: v.context.clone() }
}
pub fn unsign(v: &Value<()>) -> Value<()> {
    map_prims(v, &|p| match p {
        Primitive::I128(n) if *n >= 0 => Primitive::U128(*n as u128),
        p => p.clone(),
    })
}
