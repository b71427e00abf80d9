use crate::ctx::{check, no_panic, Case, Ctx};
use crate::gen;
use crate::reg::bitseq;
use scale_value::{At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};

fn same<T: PartialEq + std::fmt::Debug>(got: Option<&Value<T>>, want: Option<&Value<T>>, what: impl Fn() -> String) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if std::ptr::eq(a, b) => Ok(()),
        (a, b) => Err(format!("{} gave {a:?}, expected {b:?}", what())),
    }
}
fn by_index<T>(c: &Composite<T>, n: usize) -> Option<&Value<T>> {
    let mut i = 0;
    match c {
        Composite::Named(xs) => {
            for x in xs {
                if i == n {
                    return Some(&x.1);
                }
                i += 1;
            }
        }
        Composite::Unnamed(xs) => {
            for x in xs {
                if i == n {
                    return Some(x);
                }
                i += 1;
            }
        }
    }
    None
}
fn by_name<'a, T>(c: &'a Composite<T>, k: &str) -> Option<&'a Value<T>> {
    if let Composite::Named(xs) = c {
        for x in xs {
            if x.0.as_bytes() == k.as_bytes() {
                return Some(&x.1);
            }
        }
    }
    None
}
fn inner<T>(v: &Value<T>) -> Option<&Composite<T>> {
    match &v.value {
        ValueDef::Composite(c) => Some(c),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
pub fn v01(ctx: &mut Ctx) {
    ctx.rule("bounded: random values (duplicate, empty and numeric names included), every index 0..len+2 and huge ones, every present name, its prefixes and extensions, and chains of up to 3 steps; results compared by address; distinct = distinct value");
    let n = ctx.n(8000, 400_000);
    ctx.section("at", n, |c| {
        let d = c.rng.range(1, 4);
        let mut k = 0;
        let mut v = gen::gen_value(&mut c.rng, d, true, &mut k);
        if let ValueDef::Composite(Composite::Named(xs)) = &mut v.value {
            // duplicates
            if xs.len() > 1 && c.rng.bool() {
                let name = xs[0].0.clone();
                let i = c.rng.range(1, xs.len() - 1);
                xs[i].0 = name;
            }
            if !xs.is_empty() && c.rng.chance(1, 3) {
                xs[0].0 = c.rng.pick(&["0", "1", "", "00"]).to_string();
            }
        }
        c.input(format!("{v:?}"));
        let comp = inner(&v);
        let len = comp.map_or(0, |x| x.len());
        let mut idx: Vec<usize> = (0..len + 2).collect();
        idx.extend([usize::MAX, usize::MAX - 1, 1 << 32, i64::MAX as usize]);
        for i in idx {
            let want = comp.and_then(|x| by_index(x, i));
            same(no_panic("at", || v.at(i))?, want, || format!("at({i})"))?;
            same(v.at(&i), want, || format!("at(&{i})"))?;
            match &v.value {
                ValueDef::Composite(x) => same(x.at(i), want, || format!("composite at({i})"))?,
                ValueDef::Variant(x) => {
                    same(x.at(i), want, || format!("variant at({i})"))?;
                    same(x.values.at(i), want, || format!("variant values at({i})"))?
                }
                _ => {}
            }
            same(Some(&v).at(i), want, || format!("Some.at({i})"))?;
        }
        let mut names: Vec<String> = vec!["".into(), "0".into(), "1".into(), "zz".into()];
        if let Some(Composite::Named(xs)) = comp {
            for (k, _) in xs {
                names.push(k.clone());
                names.push(format!("{k} "));
                names.push(k.to_uppercase());
                let mut s = k.clone();
                s.pop();
                names.push(s);
            }
        }
        if let ValueDef::Variant(x) = &v.value {
            names.push(x.name.clone());
        }
        for k in &names {
            let want = comp.and_then(|x| by_name(x, k));
            same(no_panic("at", || v.at(k.as_str()))?, want, || format!("at({k:?})"))?;
            same(v.at(k.clone()), want, || format!("at(String {k:?})"))?;
            same(v.at(k), want, || format!("at(&String {k:?})"))?;
            if let ValueDef::Composite(x) = &v.value {
                same(x.at(k), want, || format!("composite at({k:?})"))?;
            }
        }
        let none: Option<&Value<u32>> = None;
        same(none.at(0), None, || "None.at(0)".into())?;
        same(none.at("a"), None, || "None.at(\"a\")".into())?;
        // chains
        for _ in 0..6 {
            let (i, j, l) = (c.rng.below(4), c.rng.below(4), c.rng.below(4));
            let w1 = inner(&v).and_then(|x| by_index(x, i));
            let w2 = w1.and_then(inner).and_then(|x| by_index(x, j));
            let w3 = w2.and_then(inner).and_then(|x| by_index(x, l));
            same(v.at(i).at(j), w2, || format!("at({i}).at({j})"))?;
            same(v.at(i).at(j).at(l), w3, || format!("at({i}).at({j}).at({l})"))?;
            if let Some(Composite::Named(xs)) = w1.and_then(inner) {
                if let Some((k, _)) = xs.get(j) {
                    same(v.at(i).at(k), w1.and_then(inner).and_then(|x| by_name(x, k)), || format!("at({i}).at({k:?})"))?;
                }
            }
        }
        Ok(())
    });
}

pub fn v02(ctx: &mut Ctx) {
    ctx.rule("bounded: random values with distinct contexts at every place, to depth 5, mapped by injective, constant and composed functions; distinct = distinct value");
    let n = ctx.n(8000, 400_000);
    ctx.section("map", n, |c| {
        let d = c.rng.below(6);
        let v = gen::value(&mut c.rng, d, true);
        c.input(format!("{v:?}"));
        let f = |x: u32| (x as u64) * 3 + 1;
        let g = |x: u64| format!("g{x}");
        let want = gen::map(&v, &mut |x| f(*x));
        let got = v.clone().map_context(f);
        check(got == want, || format!("mapped to {got:?}, expected {want:?}"))?;
        let got = v.clone().remove_context();
        check(got == gen::strip(&v), || format!("remove_context gave {got:?}"))?;
        let got = v.clone().map_context(|_| ());
        check(got == gen::strip(&v), || format!("mapping to unit gave {got:?}"))?;
        check(v.clone().map_context(|x| x) == v, || "mapping by the identity changed the value".into())?;
        let twice = v.clone().map_context(f).map_context(g);
        let once = v.clone().map_context(|x| g(f(x)));
        check(twice == once, || format!("mapping twice gave {twice:?}, by the composition {once:?}"))?;
        // each place once
        let calls = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
        let c2 = calls.clone();
        let _ = v.clone().map_context(move |x| {
            c2.borrow_mut().push(x);
        });
        let mut got = calls.borrow().clone();
        got.sort();
        let mut want = vec![];
        gen::map(&v, &mut |x| want.push(*x));
        want.sort();
        check(got == want, || format!("the function was called on {got:?}, expected {want:?}"))?;
        match &v.value {
            ValueDef::Composite(x) => {
                let got = x.clone().map_context(f);
                check(got == gen::map_c(x, &mut |x| f(*x)), || format!("composite mapped to {got:?}"))
            }
            ValueDef::Variant(x) => {
                let got = x.clone().map_context(f);
                let want = Variant { name: x.name.clone(), values: gen::map_c(&x.values, &mut |x| f(*x)) };
                check(got == want, || format!("variant mapped to {got:?}"))
            }
            _ => Ok(()),
        }
    });
}

pub fn v03(ctx: &mut Ctx) {
    ctx.rule("bounded: random item lists of 0 to 12 items through every constructor, accessor, iterator (both ends of exact size after each step) and conversion from a list; distinct = distinct list");
    let n = ctx.n(6000, 300_000);
    ctx.section("composite", n, |c| {
        let k = if c.rng.chance(1, 8) { 0 } else { c.rng.size(13, 70000) };
        let items: Vec<Value<()>> = (0..k).map(|_| gen::plain(&mut c.rng, 1, true)).collect();
        let names: Vec<String> = (0..k).map(|_| crate::reg::gen_name(&mut c.rng)).collect();
        c.input(format!("{names:?} {items:?}"));
        let pairs: Vec<(String, Value<()>)> = names.iter().cloned().zip(items.iter().cloned()).collect();
        let named = Composite::Named(pairs.clone());
        let unnamed = Composite::Unnamed(items.clone());
        for (what, x) in [("named", &named), ("unnamed", &unnamed)] {
            check(x.len() == k, || format!("{what} len {} of {k}", x.len()))?;
            check(x.is_empty() == (k == 0), || format!("{what} is_empty {}", x.is_empty()))?;
            let mut it = x.values();
            for i in 0..k {
                check(it.len() == k - i && it.size_hint() == (k - i, Some(k - i)), || format!("{what} values() claims {} of {}", it.len(), k - i))?;
                check(it.next() == Some(&items[i]), || format!("{what} values() item {i} differs"))?;
            }
            check(it.len() == 0 && it.next().is_none(), || format!("{what} values() yields too many"))?;
            let mut it = x.clone().into_values();
            for i in 0..k {
                check(it.len() == k - i && it.size_hint() == (k - i, Some(k - i)), || format!("{what} into_values() claims {} of {}", it.len(), k - i))?;
                check(it.next().as_ref() == Some(&items[i]), || format!("{what} into_values() item {i} differs"))?;
            }
            check(it.len() == 0 && it.next().is_none(), || format!("{what} into_values() yields too many"))?;
        }
        // constructors
        let cv = |x: Composite<()>| Value { value: ValueDef::Composite(x), context: () };
        let eq = |what: &str, a: &Value<()>, b: &Value<()>| check(a == b, || format!("{what} built {a:?}, expected {b:?}"));
        let eqc = |what: &str, a: &Composite<()>, b: &Composite<()>| check(a == b, || format!("{what} built {a:?}, expected {b:?}"));
        eqc("Composite::named", &Composite::named(pairs.clone()), &named)?;
        eqc("Composite::named(&str)", &Composite::named(pairs.iter().map(|(k, v)| (k.as_str(), v.clone()))), &named)?;
        eqc("Composite::unnamed", &Composite::unnamed(items.clone()), &unnamed)?;
        eqc("Composite::from(list)", &Composite::from(items.clone()), &unnamed)?;
        eqc("Composite::from(pairs)", &Composite::from(pairs.clone()), &named)?;
        eq("Value::named_composite", &Value::named_composite(pairs.clone()), &cv(named.clone()))?;
        eq("Value::unnamed_composite", &Value::unnamed_composite(items.clone()), &cv(unnamed.clone()))?;
        eq("Value::from(list)", &Value::from(items.clone()), &cv(unnamed.clone()))?;
        eq("Value::from(pairs)", &Value::from(pairs.clone()), &cv(named.clone()))?;
        eq("Value::from(composite)", &Value::from(named.clone()), &cv(named.clone()))?;
        let d: ValueDef<()> = items.clone().into();
        check(d == ValueDef::Composite(unnamed.clone()), || "ValueDef from a list".into())?;
        let d: ValueDef<()> = pairs.clone().into();
        check(d == ValueDef::Composite(named.clone()), || "ValueDef from pairs".into())?;
        let d: ValueDef<()> = named.clone().into();
        check(d == ValueDef::Composite(named.clone()), || "ValueDef from a composite".into())?;
        let name = crate::reg::gen_name(&mut c.rng);
        let vn = Variant { name: name.clone(), values: named.clone() };
        let vu = Variant { name: name.clone(), values: unnamed.clone() };
        check(Variant::named_fields(name.as_str(), pairs.clone()) == vn, || "Variant::named_fields".into())?;
        check(Variant::unnamed_fields(name.as_str(), items.clone()) == vu, || "Variant::unnamed_fields".into())?;
        let vv = |x: Variant<()>| Value { value: ValueDef::Variant(x), context: () };
        eq("Value::named_variant", &Value::named_variant(name.as_str(), pairs.clone()), &vv(vn.clone()))?;
        eq("Value::unnamed_variant", &Value::unnamed_variant(name.as_str(), items.clone()), &vv(vu.clone()))?;
        eq("Value::variant", &Value::variant(name.as_str(), named.clone()), &vv(vn.clone()))?;
        eq("Value::from(variant)", &Value::from(vu.clone()), &vv(vu.clone()))?;
        let d: ValueDef<()> = vu.clone().into();
        check(d == ValueDef::Variant(vu.clone()), || "ValueDef from a variant".into())?;
        // lists of Rust data
        let ns: Vec<u8> = (0..k).map(|_| c.rng.u64() as u8).collect();
        let want: Vec<Value<()>> = ns.iter().map(|n| Value { value: ValueDef::Primitive(Primitive::U128(*n as u128)), context: () }).collect();
        eq("Value::from(Vec<u8>)", &Value::from(ns.clone()), &cv(Composite::Unnamed(want.clone())))?;
        let kv: Vec<(String, u8)> = names.iter().cloned().zip(ns.iter().copied()).collect();
        eq("Value::from(Vec<(String, u8)>)", &Value::from(kv), &cv(Composite::Named(names.iter().cloned().zip(want.iter().cloned()).collect())))
    });
}

fn pv(p: Primitive) -> Value<()> {
    Value { value: ValueDef::Primitive(p), context: () }
}
fn conv<T>(c: &mut Case, x: T, want: Primitive, show: String) -> Result<(), String>
where
    T: Clone,
    Primitive: From<T>,
    ValueDef<u8>: From<T>,
    Value<()>: From<T>,
{
    c.input(show.clone());
    let p = Primitive::from(x.clone());
    check(p == want, || format!("{show}: Primitive::from gave {p:?}, expected {want:?}"))?;
    let d = ValueDef::<u8>::from(x.clone());
    check(d == ValueDef::Primitive(want.clone()), || format!("{show}: ValueDef::from gave {d:?}"))?;
    let v = Value::from(x);
    check(v == pv(want.clone()), || format!("{show}: Value::from gave {v:?}"))
}
fn accessors(v: &Value<()>) -> Result<(), String> {
    let p = match &v.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    let b = match p { Some(Primitive::Bool(b)) => Some(*b), _ => None };
    let ch = match p { Some(Primitive::Char(b)) => Some(*b), _ => None };
    let s = match p { Some(Primitive::String(b)) => Some(b.as_str()), _ => None };
    let u = match p { Some(Primitive::U128(b)) => Some(*b), _ => None };
    let i = match p { Some(Primitive::I128(b)) => Some(*b), _ => None };
    check(v.as_bool() == b && v.as_char() == ch && v.as_str() == s && v.as_u128() == u && v.as_i128() == i, || format!("an accessor of {v:?} is wrong: {:?} {:?} {:?} {:?} {:?}", v.as_bool(), v.as_char(), v.as_str(), v.as_u128(), v.as_i128()))?;
    if let Some(p) = p {
        check(p.as_bool() == b && p.as_char() == ch && p.as_str() == s && p.as_u128() == u && p.as_i128() == i, || format!("an accessor of {p:?} is wrong"))?;
    }
    Ok(())
}
pub fn v04(ctx: &mut Ctx) {
    ctx.rule("every u8, i8, u16, i16, bool, edge and random wider integers, chars and strings through every conversion, constructor and accessor; distinct = distinct source");
    ctx.section("16 bit", 65536, |c| {
        let n = c.idx as u16;
        conv(c, n, Primitive::U128(n as u128), format!("u16 {n}"))?;
        let i = n as i16;
        conv(c, i, Primitive::I128(i as i128), format!("i16 {i}"))?;
        if n < 256 {
            conv(c, n as u8, Primitive::U128(n as u128), format!("u8 {n}"))?;
            let i = n as u8 as i8;
            conv(c, i, Primitive::I128(i as i128), format!("i8 {i}"))?;
            conv(c, n & 1 == 1, Primitive::Bool(n & 1 == 1), format!("bool {}", n & 1))?;
            let b = Value::from_bytes([n as u8, 1]);
            check(b == Value { value: ValueDef::Composite(Composite::Unnamed(vec![pv(Primitive::U128(n as u128)), pv(Primitive::U128(1))])), context: () }, || format!("from_bytes gave {b:?}"))?;
        }
        Ok(())
    });
    let n = ctx.n(8000, 400_000);
    ctx.section("wide", n, |c| {
        let u = c.rng.edgy_u128();
        let i = c.rng.edgy_i128();
        conv(c, u, Primitive::U128(u), format!("u128 {u}"))?;
        conv(c, u as u64, Primitive::U128(u & 0xffff_ffff_ffff_ffff), format!("u64 {u}"))?;
        conv(c, u as usize, Primitive::U128(u & usize::MAX as u128), format!("usize {u}"))?;
        conv(c, u as u32, Primitive::U128(u & 0xffff_ffff), format!("u32 {u}"))?;
        conv(c, i, Primitive::I128(i), format!("i128 {i}"))?;
        let m = |bits: u32| (i << (128 - bits)) >> (128 - bits);
        conv(c, i as i64, Primitive::I128(m(64)), format!("i64 {i}"))?;
        conv(c, i as isize, Primitive::I128(m(64)), format!("isize {i}"))?;
        conv(c, i as i32, Primitive::I128(m(32)), format!("i32 {i}"))?;
        check(Value::u128(u) == pv(Primitive::U128(u)) && Primitive::u128(u) == Primitive::U128(u), || "u128 constructor".into())?;
        check(Value::i128(i) == pv(Primitive::I128(i)) && Primitive::i128(i) == Primitive::I128(i), || "i128 constructor".into())?;
        let ch = c.rng.char();
        conv(c, ch, Primitive::Char(ch), format!("char {ch:?}"))?;
        check(Value::char(ch) == pv(Primitive::Char(ch)) && Value::bool(u & 1 == 1) == pv(Primitive::Bool(u & 1 == 1)), || "char or bool constructor".into())?;
        let s = c.rng.string(8);
        conv(c, s.clone(), Primitive::String(s.clone()), format!("String {s:?}"))?;
        conv(c, s.as_str(), Primitive::String(s.clone()), format!("&str {s:?}"))?;
        check(Value::string(s.as_str()) == pv(Primitive::String(s.clone())), || "string constructor".into())?;
        let bits = gen::gen_bits(&mut c.rng);
        let bs: BitSequence = bitseq(&bits);
        let want = Value { value: ValueDef::BitSequence(bs.clone()), context: () };
        check(Value::from(bs.clone()) == want && Value::bit_sequence(bs) == want, || "bit sequence constructor".into())?;
        let n = c.rng.size(20, 70000);
        let b = c.rng.bytes(n);
        let got = Value::from_bytes(&b);
        let want: Vec<Value<()>> = b.iter().map(|x| pv(Primitive::U128(*x as u128))).collect();
        check(got == Value { value: ValueDef::Composite(Composite::Unnamed(want)), context: () }, || format!("from_bytes({b:?}) gave {got:?}"))?;
        let v = gen::plain(&mut c.rng, 1, true);
        accessors(&v)?;
        for p in [Primitive::U128(u), Primitive::I128(i), Primitive::Char(ch), Primitive::String(s), Primitive::Bool(u & 1 == 1), Primitive::U256([7; 32]), Primitive::I256([7; 32])] {
            accessors(&pv(p.clone()))?;
            check(Value::primitive(p.clone()) == pv(p), || "Value::primitive".into())?;
        }
        Ok(())
    });
}
