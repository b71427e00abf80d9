use crate::ctx::{check, no_panic, Case, Ctx};
use crate::gen;
use crate::refstr::{self, dec, gen_text, mutate, quote, Parser, Printer, Style};
use crate::reg::bitseq;
use crate::rng::Rng;
use scale_value::stringify::{self, custom_formatters::format_hex, custom_parsers::{parse_hex, parse_ss58}, ParseError, ParseErrorKind};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use std::fmt::Write;

/// A writer that can be read after it was given away.
#[derive(Clone, Default)]
struct Shared(std::rc::Rc<std::cell::RefCell<String>>);
impl Write for Shared {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}
impl Shared {
    fn text(&self) -> String {
        self.0.borrow().clone()
    }
}
fn print<T>(v: &Value<T>, st: Style, lead: &str, step: &str) -> Result<String, String> {
    let s = Shared::default();
    let b = stringify::to_writer_custom::<T, Shared>();
    let b = match st {
        Style::Compact => b.compact(),
        Style::Normal => b,
        Style::Pretty => b.pretty().leading_indent(lead.to_string()).indent_by(step.to_string()),
    };
    b.write(v, s.clone()).map_err(|_| format!("printing in style {st:?} failed"))?;
    Ok(s.text())
}
fn all_prints(v: &Value<()>) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    for st in [Style::Compact, Style::Normal, Style::Pretty] {
        out.push((format!("{st:?}"), print(v, st, "", "  ")?));
    }
    let mut s = String::new();
    write!(s, "{v}").map_err(|_| "Display failed".to_string())?;
    out.push(("Display".into(), s));
    let mut s = String::new();
    write!(s, "{v:#}").map_err(|_| "alternate Display failed".to_string())?;
    out.push(("Display#".into(), s));
    let mut s = String::new();
    stringify::to_writer(v, &mut s).map_err(|_| "to_writer failed".to_string())?;
    out.push(("to_writer".into(), s));
    Ok(out)
}
fn small_values() -> Vec<Value<()>> {
    let mut atoms = vec![Value::bool(true), Value::bool(false), Value::u128(0), Value::i128(-1), Value::i128(3), Value::u128(u128::MAX), Value::i128(i128::MIN), Value::bit_sequence(bitseq(&[])), Value::bit_sequence(bitseq(&[true, false, true])), Value::string(""), Value::char('\'')];
    atoms.push(Value::string("\"a\\"));
    let names = ["a", "", "true", "false", "trueish", "false_", "v", "v1", "a b", "é", "²a", "a²", "1a", "_", "\"", "\\", "true ", "tr\nue", "0x", "\u{0}", "{", "v\"x\"", "n", "falsey"];
    let mut out = atoms.clone();
    for a in &atoms {
        out.push(Value::unnamed_composite([a.clone()]));
        out.push(Value::unnamed_composite([a.clone(), Value::bool(true)]));
        out.push(Value::named_composite([("x", a.clone())]));
    }
    for n in names {
        out.push(Value::named_composite([(n, Value::u128(1))]));
        out.push(Value::named_composite([("z", Value::u128(2)), (n, Value::unnamed_composite([]))]));
        for c in [Composite::Unnamed(vec![]), Composite::Named(vec![]), Composite::Unnamed(vec![Value::bool(false), Value::u128(7)]), Composite::Named(vec![(n.to_string(), Value::char('\\'))])] {
            out.push(Value::variant(n, c));
        }
    }
    out
}
/// What the contracts assume of the standard library and of yap: every char for the classes, the rest sampled.
fn assumed(ctx: &mut Ctx) {
    ctx.section("assumed: char classes", 0x110, |c| {
        for u in (c.idx as u32 * 0x1000)..((c.idx as u32 + 1) * 0x1000) {
            let Some(ch) = char::from_u32(u) else { continue };
            let (a, n, w, d) = (ch.is_alphabetic(), ch.is_alphanumeric(), ch.is_whitespace(), ch.is_ascii_digit());
            let letter = ch.is_ascii_lowercase() || ch.is_ascii_uppercase();
            let ws = matches!(u, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000);
            let ok = (!a || (n && !d)) && (!d || n) && (!n || !w) && (!letter || a) && (u > 126 || letter || !a) && (u > 126 || letter || d || !n) && w == ws && d == ('0'..='9').contains(&ch);
            check(ok, || format!("U+{u:x}"))?;
        }
        Ok(())
    });
    ctx.section("assumed: decimal numbers", 300, |c| {
        let n = c.rng.edgy_u128();
        let mut digits = vec![];
        let mut k = n;
        while k > 0 || digits.is_empty() {
            digits.push(b'0' + (k % 10) as u8);
            k /= 10;
        }
        digits.reverse();
        let t = String::from_utf8(digits).unwrap();
        c.input(t.clone());
        check(n.to_string() == t && t.parse::<u128>() == Ok(n) && format!("00{t}").parse::<u128>() == Ok(n) && format!("{t}0").parse::<u128>().ok() == n.checked_mul(10), || "u128".into())?;
        let m = 0i128.checked_sub_unsigned(n);
        check(format!("-{t}").parse::<i128>().ok() == m, || "parse i128".into())?;
        if let Some(m) = m {
            check(m.to_string() == if n == 0 { t.clone() } else { format!("-{t}") }, || "print i128".into())?;
        }
        Ok(())
    });
    ctx.section("assumed: yap::types::StrTokens", 600, |c| {
        use yap::{IntoTokens, TokenLocation, Tokens};
        let cs: Vec<char> = (0..c.rng.below(9)).map(|_| ['a', 'b', '0', 'é', '€', '𝄞', ' '][c.rng.below(7) as usize]).collect();
        let s: String = cs.iter().collect();
        c.input(s.clone());
        let mut t = s.as_str().into_tokens();
        let mut i = 0usize;
        let off = |i: usize| cs[..i].iter().map(|c| c.len_utf8()).sum::<usize>();
        for _ in 0..12 {
            check(t.offset() == off(i) && t.remaining() == &s[off(i)..] && t.location().offset() == off(i), || format!("position {i}"))?;
            check(t.peek() == cs.get(i).copied(), || "peek".into())?;
            match c.rng.below(6) {
                0 => {
                    check(t.next() == cs.get(i).copied(), || "next".into())?;
                    i = (i + 1).min(cs.len());
                }
                1 => {
                    let x = ['a', 'é', '€'][c.rng.below(3) as usize];
                    let want = cs.get(i) == Some(&x);
                    check(t.token(x) == want, || "token".into())?;
                    i += want as usize;
                }
                2 => {
                    let x = ["ab", "€a", "", "𝄞"][c.rng.below(4) as usize];
                    let want = s[off(i)..].starts_with(x);
                    check(t.tokens(x.chars()) == want, || format!("tokens {x:?}"))?;
                    i += if want { x.chars().count() } else { 0 };
                }
                3 => {
                    let n = cs[i..].iter().take_while(|c| **c == 'a' || **c == 'é').count();
                    check(t.skip_while(|c| *c == 'a' || *c == 'é') == n, || "skip_while".into())?;
                    i += n;
                }
                4 => {
                    let n = cs[i..].iter().take_while(|c| c.is_alphabetic()).count();
                    let got: String = t.take_while(|c| c.is_alphabetic()).collect();
                    check(got.chars().eq(cs[i..i + n].iter().copied()), || "take_while".into())?;
                    i += n;
                }
                _ => {
                    let a = t.location();
                    let from = i;
                    for _ in 0..c.rng.below(3) {
                        t.next();
                        i = (i + 1).min(cs.len());
                    }
                    let b = t.location();
                    let got: String = t.slice(a.clone(), b).as_iter().collect();
                    check(got.chars().eq(cs[from..i].iter().copied()), || "slice".into())?;
                    if c.rng.chance(1, 2) {
                        t.set_location(a);
                        i = from;
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn t01(ctx: &mut Ctx) {
    assumed(ctx);
    ctx.rule("bounded: listed small values, every char as char/string/name up to U+FFFF in blocks, and random values to depth 5; three styles plus Display; distinct = distinct value");
    let one = |c: &mut Case, v: Value<()>| -> Result<(), String> {
        c.input(format!("{v:?}"));
        let want = gen::unsign(&v);
        for (st, s) in all_prints(&v)? {
            let (r, rest) = stringify::from_str(&s);
            match r {
                Ok(got) => {
                    check(rest.is_empty(), || format!("{st}: printed as {s:?}, which parses leaving {rest:?}"))?;
                    check(got == want, || format!("{st}: printed as {s:?}, which parses to {got:?}"))?;
                }
                Err(e) => return Err(format!("{st}: printed as {s:?}, which fails to parse: {e}")),
            }
        }
        Ok(())
    };
    let small = small_values();
    ctx.section("small", small.len() as u64, |c| one(c, small[c.idx as usize].clone()));
    let n = ctx.n(2048, 0x110000 / 8);
    ctx.section("chars", n, |c| {
        let lo = c.idx as u32 * 8;
        let cs: Vec<char> = (lo..lo + 8).filter_map(char::from_u32).collect();
        if cs.is_empty() {
            return Ok(());
        }
        let mut items = vec![];
        for ch in &cs {
            items.push(Value::char(*ch));
            items.push(Value::variant(format!("{ch}"), Composite::Unnamed(vec![])));
            items.push(Value::variant(format!("a{ch}"), Composite::Unnamed(vec![])));
            items.push(Value::variant(format!("true{ch}"), Composite::Unnamed(vec![])));
            items.push(Value::named_composite([(format!("{ch}x"), Value::bool(true)), (format!("x{ch}"), Value::bool(true))]));
        }
        items.push(Value::string(cs.iter().collect::<String>()));
        one(c, Value::unnamed_composite(items))
    });
    let n = ctx.n(8000, 400_000);
    ctx.section("random", n, |c| {
        let d = c.rng.below(6);
        let v = gen::plain(&mut c.rng, d, false);
        one(c, v)
    });
}

fn check_error(s: &str, e: &ParseError) -> Result<(), String> {
    check(e.start_loc <= s.len(), || format!("error starts at {} beyond the input ({} bytes): {e}", e.start_loc, s.len()))?;
    if let Some(end) = e.end_loc {
        check(end >= e.start_loc, || format!("error ends at {end} before its start {}", e.start_loc))?;
    }
    Ok(())
}
fn parse_one(c: &mut Case, s: String) -> Result<(), String> {
    c.input(format!("{s:?}"));
    let (r, rest) = no_panic("from_str", || stringify::from_str(&s))?;
    check(s.ends_with(rest), || format!("unparsed {rest:?} is not a suffix"))?;
    check(rest.as_ptr() as usize + rest.len() == s.as_ptr() as usize + s.len(), || "unparsed text is not part of the input".into())?;
    let used = s.len() - rest.len();
    check(s.is_char_boundary(used), || "stopped inside a character".into())?;
    let mut p = Parser::new(&s);
    let want = p.value();
    match (&r, &want) {
        (Ok(v), Ok(w)) => {
            check(v == w, || format!("parsed to {v:?}, expected {w:?}"))?;
            check(used == p.offset(), || format!("consumed {used} bytes, expected {}", p.offset()))?;
            // only the consumed text and the next char matter
            let next = rest.chars().next().map_or(0, char::len_utf8);
            let cut = &s[..used + next];
            let (r2, rest2) = no_panic("from_str", || stringify::from_str(cut))?;
            check(r2.as_ref() == Ok(v) && rest2.len() == next, || format!("prefix {cut:?} alone parses to {r2:?}"))
        }
        (Err(e), Err(())) => {
            let _ = e.to_string();
            check_error(&s, e)
        }
        (Ok(v), Err(())) => Err(format!("accepted as {v:?} (leaving {rest:?}); expected an error")),
        (Err(e), Ok(w)) => Err(format!("rejected ({e}); expected {w:?}")),
    }
}
pub fn t02(ctx: &mut Ctx) {
    assumed(ctx);
    ctx.rule("bounded: every text of up to 3 characters over a 24-character alphabet, grammar-generated, mutated and random texts, against an independent reference parser; distinct = distinct text");
    let al: Vec<char> = "tvF1_+-'\"\\{}()<>,: én0\u{3000}😀".chars().collect();
    let k = al.len() as u64;
    ctx.section("exhaustive", 1 + k + k * k + k * k * k, |c| {
        let (mut i, mut len, mut cap) = (c.idx, 0, 1);
        while i >= cap {
            i -= cap;
            cap *= k;
            len += 1;
        }
        let s: String = (0..len).map(|_| { let ch = al[(i % k) as usize]; i /= k; ch }).collect();
        parse_one(c, s)
    });
    let n = ctx.n(12000, 600_000);
    ctx.section("generated", n, |c| {
        let d = c.rng.below(4);
        let mut s = gen_text(&mut c.rng, d);
        if c.rng.bool() {
            s = mutate(&mut c.rng, &s);
        }
        parse_one(c, s)
    });
    let n = ctx.n(4000, 200_000);
    ctx.section("printed", n, |c| {
        let v = gen::plain(&mut c.rng, 3, false);
        let st = *c.rng.pick(&[Style::Compact, Style::Normal, Style::Pretty]);
        let s = Printer::plain(st).value(&v, 0);
        let s = mutate(&mut c.rng, &s);
        parse_one(c, s)
    });
    let n = ctx.n(4000, 200_000);
    ctx.section("random", n, |c| {
        let s = c.rng.string(12);
        parse_one(c, s)
    });
}

pub fn t03(ctx: &mut Ctx) {
    assumed(ctx);
    ctx.rule("exhaustive over all chars as quoted char, in a string, and as the code after a backslash; bounded random strings; distinct = distinct char or text");
    let step = if ctx.thorough { 1 } else { 4 };
    // every char below 0x3000 and a stride of the rest
    let one = |ch: char| -> Result<(), String> {
        let q = quote(&ch.to_string(), '\'');
        let got = Value::char(ch).to_string();
        check(got == q, || format!("char prints as {got:?}, expected {q:?}"))?;
        let (r, rest) = stringify::from_str(&q);
        check(r == Ok(Value::char(ch)) && rest.is_empty(), || format!("{q:?} reads as {r:?}"))?;
        let st = format!("a{ch}b");
        let q = quote(&st, '"');
        let got = Value::string(st.clone()).to_string();
        check(got == q, || format!("string prints as {got:?}, expected {q:?}"))?;
        let (r, rest) = stringify::from_str(&q);
        check(r == Ok(Value::string(st.clone())) && rest.is_empty(), || format!("{q:?} reads as {r:?}"))?;
        // raw reading
        for (text, want) in [
            (format!("'\\{ch}'"), refstr::ESC.iter().find(|e| e.0 == ch).map(|e| Value::char(e.1))),
            (format!("\"x\\{ch}y\""), refstr::ESC.iter().find(|e| e.0 == ch).map(|e| Value::string(format!("x{}y", e.1)))),
            (format!("'{ch}'"), (ch != '\\').then(|| Value::char(ch))),
        ] {
            let (r, rest) = stringify::from_str(&text);
            match (&r, &want) {
                (Ok(v), Some(w)) => check(v == w && rest.is_empty(), || format!("{text:?} reads as {v:?}"))?,
                (Err(_), None) => {}
                _ => return Err(format!("{text:?} reads as {r:?}, expected {want:?}")),
            }
        }
        for text in [format!("'{ch}"), format!("\"a{ch}{ch}a"), format!("'\\{ch}"), format!("\"\\{ch}"), format!("'a{ch}'")] {
            let mut p = Parser::new(&text);
            let want = p.value();
            let (r, _) = no_panic("from_str", || stringify::from_str(&text))?;
            check(r.is_ok() == want.is_ok(), || format!("{text:?} reads as {r:?}"))?;
        }
        Ok(())
    };
    ctx.section("low chars", 0x3000, |c| {
        let ch = char::from_u32(c.idx as u32).unwrap();
        c.input(format!("{ch:?}"));
        one(ch)
    });
    ctx.section("all chars", 0x110000 / (64 * step), |c| {
        for k in 0..64 {
            let Some(ch) = char::from_u32(((c.idx * 64 + k) * step) as u32) else { continue };
            if ch < '\u{3000}' {
                continue;
            }
            if k == 0 || step == 1 || k % 8 == (c.idx % 8) {
                c.input(format!("{ch:?}"));
                one(ch)?;
            }
        }
        Ok(())
    });
    let n = ctx.n(5000, 300_000);
    ctx.section("strings", n, |c| {
        let st = c.rng.string(20);
        let q = quote(&st, '"');
        c.input(format!("{st:?}"));
        let got = Value::string(st.clone()).to_string();
        check(got == q, || format!("prints as {got:?}, expected {q:?}"))?;
        let (r, rest) = stringify::from_str(&q);
        check(r == Ok(Value::string(st.clone())) && rest.is_empty(), || format!("{q:?} reads as {r:?}"))?;
        let m = mutate(&mut c.rng, &q);
        let mut p = Parser::new(&m);
        if m.starts_with('"') {
            let want = p.value();
            let (r, rest) = no_panic("from_str", || stringify::from_str(&m))?;
            match (r, want) {
                (Ok(v), Ok(w)) => check(v == w && m.len() - rest.len() == p.offset(), || format!("{m:?} reads as {v:?}, expected {w:?}")),
                (Err(_), Err(_)) => Ok(()),
                (r, w) => Err(format!("{m:?} reads as {r:?}, expected {w:?}")),
            }
        } else {
            Ok(())
        }
    });
}

/// An independent decimal reader on digit strings.
fn ref_num(s: &str) -> (Option<Primitive>, usize) {
    let mut p = Parser::new(s);
    match p.value() {
        Ok(Value { value: ValueDef::Primitive(x), .. }) => (Some(x), p.offset()),
        _ => (None, 0),
    }
}
pub fn t04(ctx: &mut Ctx) {
    assumed(ctx);
    ctx.rule("bounded: every literal of sign and up to 4 of the characters 0 1 9 _ a, boundary numbers around 2^127 and 2^128 with signs, zeros and underscores, random digit strings up to 60 digits; distinct = distinct literal");
    let one = |c: &mut Case, s: String| -> Result<(), String> {
        c.input(format!("{s:?}"));
        let (want, used) = ref_num(&s);
        let (r, rest) = no_panic("from_str", || stringify::from_str(&s))?;
        match (r, want) {
            (Ok(v), Some(w)) => {
                check(v == Value::primitive(w.clone()), || format!("parsed to {v:?}, expected {w:?}"))?;
                check(s.len() - rest.len() == used, || format!("left {rest:?}"))
            }
            (Err(_), None) => Ok(()),
            (Ok(v), None) => Err(format!("accepted as {v:?}, expected an error")),
            (Err(e), Some(w)) => Err(format!("rejected ({e}), expected {w:?}")),
        }
    };
    let al: Vec<char> = "019_a".chars().collect();
    ctx.section("short", 3 * 5 * 625 * 5, |c| {
        let mut i = c.idx as usize;
        let mut s = ["", "+", "-"][i % 3].to_string();
        i /= 3;
        let len = i % 5;
        i /= 5;
        s.push(*['0', '5', '9', '1', '7'].get(i % 5).unwrap());
        i /= 5;
        for _ in 0..len {
            s.push(al[i % 5]);
            i /= 5;
        }
        one(c, s)
    });
    ctx.section("signs", 60, |c| {
        let s = ["+", "-", "+a", "-_1", "+_1", "--1", "+-1", "-+1", "++1", "- 1", "_1", "-0", "+0", "-00", "-٣", "٣", "1٣", "+(", "-\"", "1__", "0_", "1_a", "1.5", "-1_", "1e3"][(c.idx % 25) as usize];
        one(c, format!("{s}{}", ["", " ", ")"][(c.idx / 25) as usize % 3]))
    });
    let n = ctx.n(12000, 400_000);
    ctx.section("wide", n, |c| {
        let sign = *c.rng.pick(&["", "", "+", "-", "-"]);
        let base = match c.rng.below(5) {
            0 => {
                // around 2^127 and 2^128, written by decimal addition on strings
                let b = *c.rng.pick(&["340282366920938463463374607431768211455", "170141183460469231731687303715884105728"]);
                let mut d: Vec<u8> = b.bytes().map(|x| x - b'0').collect();
                let up = c.rng.bool();
                for _ in 0..c.rng.below(12) {
                    let mut i = d.len() - 1;
                    loop {
                        if up {
                            if d[i] < 9 { d[i] += 1; break }
                            d[i] = 0;
                        } else {
                            if d[i] > 0 { d[i] -= 1; break }
                            d[i] = 9;
                        }
                        i -= 1;
                    }
                }
                d.iter().map(|x| (x + b'0') as char).collect()
            }
            1 => {
                let n = (1 + c.rng.size(60, 300));
                (0..n).map(|_| (b'0' + c.rng.below(10) as u8) as char).collect::<String>()
            }
            2 => format!("{}{}", "0".repeat(c.rng.size(50, 3000)), dec(c.rng.edgy_u128(), false)),
            _ => dec(c.rng.edgy_u128(), false),
        };
        let mut body: Vec<char> = base.chars().collect();
        for _ in 0..c.rng.below(4) {
            let at = c.rng.range(1, body.len());
            body.insert(at, '_');
        }
        let tail = *c.rng.pick(&["", "", " ", ",", "a", ")", "é", "_"]);
        one(c, format!("{sign}{}{tail}", body.iter().collect::<String>()))
    });
}

fn ref_hex(s: &str) -> Option<Result<(Vec<u8>, usize), ()>> {
    let rest = s.strip_prefix("0x")?;
    let mut nib = vec![];
    let mut used = 2;
    for c in rest.chars() {
        if !(c.is_ascii_alphabetic() || c.is_ascii_digit()) {
            break;
        }
        match "0123456789abcdef".find(c.to_ascii_lowercase()) {
            Some(n) => nib.push(n as u8),
            None => return Some(Err(())),
        }
        used += 1;
    }
    if nib.len() % 2 != 0 {
        return Some(Err(()));
    }
    Some(Ok((nib.chunks(2).map(|p| p[0] * 16 + p[1]).collect(), used)))
}
fn bytes_value(b: &[u8]) -> Value<()> {
    let mut out = vec![];
    for x in b {
        out.push(Value::u128(*x as u128));
    }
    Value::unnamed_composite(out)
}
fn hex_text(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        for n in [x >> 4, x & 15] {
            s.push(*b"0123456789ABCDEF".get(n as usize).unwrap() as char);
        }
    }
    s
}
pub fn t05(ctx: &mut Ctx) {
    ctx.rule("every byte alone, random byte lists, near-miss lists (256, signed, named, empty, nested) and hex-ish texts of every short form; distinct = distinct list or text");
    ctx.section("bytes", 256 + 300, |c| {
        let b = if c.idx < 256 { vec![c.idx as u8] } else { let n = (1 + c.rng.size(40, 5000)); c.rng.bytes(n) };
        c.input(crate::ctx::hex(&b));
        let mut s = String::new();
        let r = format_hex(&bytes_value(&b), &mut s);
        check(r == Some(Ok(())), || format!("format_hex gave {r:?}"))?;
        let want = hex_text(&b);
        check(s == want, || format!("format_hex wrote {s}, expected {want}"))?;
        for t in [s.clone(), s.to_ascii_lowercase().to_string()] {
            let mut cur = &t[..];
            let r = parse_hex(&mut cur);
            check(r == Some(Ok(bytes_value(&b))) && cur.is_empty(), || format!("{t} parses to {r:?} leaving {cur:?}"))?;
        }
        Ok(())
    });
    let n = ctx.n(6000, 300_000);
    ctx.section("format", n, |c| {
        let k = c.rng.size(6, 5000);
        let items: Vec<Value<u32>> = (0..k)
            .map(|_| Value {
                value: match c.rng.below(10) {
                    0 => ValueDef::Primitive(Primitive::U128(*c.rng.pick(&[255, 256, 257, u128::MAX, 65536, 1 << 64]))),
                    1 => ValueDef::Primitive(Primitive::I128(c.rng.below(256) as i128)),
                    2 => ValueDef::Primitive(gen::gen_prim(&mut c.rng, true)),
                    3 => ValueDef::Composite(Composite::Unnamed(vec![])),
                    _ => ValueDef::Primitive(Primitive::U128(c.rng.below(256) as u128)),
                },
                context: c.rng.u64() as u32,
            })
            .collect();
        let bytes: Option<Vec<u8>> = items.iter().map(|v| match v.value { ValueDef::Primitive(Primitive::U128(n)) if n < 256 => Some(n as u8), _ => None }).collect();
        let shape = c.rng.below(5);
        let value = match shape {
            0 => ValueDef::Composite(Composite::Named(items.into_iter().map(|v| ("a".to_string(), v)).collect())),
            1 => ValueDef::Variant(Variant { name: "x".into(), values: Composite::Unnamed(items) }),
            _ => ValueDef::Composite(Composite::Unnamed(items)),
        };
        let v = Value { value, context: 0u32 };
        c.input(format!("{v:?}"));
        let mut s = String::new();
        let r = format_hex(&v, &mut s);
        match bytes {
            Some(b) if shape > 1 && !b.is_empty() => {
                check(r == Some(Ok(())) && s == hex_text(&b), || format!("gave {r:?} {s:?}"))?;
                Ok(())
            }
            _ => check(r.is_none() && s.is_empty(), || format!("not a list of bytes, but gave {r:?} {s:?}")),
        }
    });
    let n = ctx.n(20000, 800_000);
    ctx.section("parse", n, |c| {
        let k = c.rng.size(9, 5000);
        let mut t = c.rng.pick(&["0x", "0x", "0x", "0X", "x", "0", "", " 0x"]).to_string();
        for _ in 0..k {
            let ch = match c.rng.below(16) {
                0 => c.rng.char(),
                1 => *c.rng.pick(&['g', 'G', '@', '`', '/', ':', '_', 'z', 'é']),
                n => *b"0123456789abcdefABCDEF".get(n + c.rng.below(7)).unwrap_or(&b'F') as char,
            };
            t.push(ch);
        }
        c.input(format!("{t:?}"));
        let mut cur = &t[..];
        let r = no_panic("parse_hex", || parse_hex(&mut cur))?;
        match (r, ref_hex(&t)) {
            (None, None) => check(cur == t, || "consumed input but declined".into()),
            (Some(Err(e)), Some(Err(()))) => {
                check(cur == t, || "consumed input on error".into())?;
                check_error(&t, &e)
            }
            (Some(Ok(v)), Some(Ok((b, used)))) => {
                check(v == bytes_value(&b), || format!("parsed to {v:?}"))?;
                check(cur == &t[used..], || format!("left {cur:?}, expected {:?}", &t[used..]))
            }
            (r, w) => Err(format!("gave {r:?}, expected {w:?}")),
        }
    });
}

const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn b58dec(s: &str) -> Option<Vec<u8>> {
    let mut num: Vec<u8> = vec![]; // little endian
    for c in s.bytes() {
        let mut carry = B58.iter().position(|x| *x == c)? as u32;
        for d in num.iter_mut() {
            let t = *d as u32 * 58 + carry;
            *d = t as u8;
            carry = t >> 8;
        }
        while carry > 0 {
            num.push(carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|c| *c == b'1').count();
    num.extend(std::iter::repeat_n(0, zeros));
    num.reverse();
    Some(num)
}
fn b58enc(b: &[u8]) -> String {
    let mut dig: Vec<u8> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for d in dig.iter_mut() {
            let t = *d as u32 * 256 + carry;
            *d = (t % 58) as u8;
            carry = t / 58;
        }
        while carry > 0 {
            dig.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let mut s = "1".repeat(b.iter().take_while(|x| **x == 0).count());
    s.extend(dig.iter().rev().map(|d| B58[*d as usize] as char));
    s
}
fn checksum(b: &[u8]) -> [u8; 2] {
    use blake2::Digest;
    let mut h = blake2::Blake2b512::new();
    h.update(b"SS58PRE");
    h.update(b);
    let r = h.finalize();
    [r[0], r[1]]
}
fn ref_ss58(s: &str) -> Option<(Vec<u8>, usize)> {
    let run: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    if run.is_empty() || run == "true" || run == "false" || run.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let after = s[run.len()..].trim_start();
    if after.starts_with('(') || after.starts_with('{') {
        return None;
    }
    let b = b58dec(&run)?;
    let p = match *b.first()? {
        0..=63 => 1,
        64..=127 => 2,
        _ => return None,
    };
    if b.len() < p + 2 {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 2);
    if checksum(body) != sum {
        return None;
    }
    Some((body[p..].to_vec(), run.len()))
}
pub fn t06(ctx: &mut Ctx) {
    ctx.rule("every one- and two-byte prefix, payload lengths 0 to 40, every single-character corruption of sampled addresses, wrong checksums, prefixes 128..255, tails and random alphanumeric runs, against an independent base58 + blake2 reader; distinct = distinct text");
    let one = |c: &mut Case, t: String| -> Result<(), String> {
        c.input(format!("{t:?}"));
        let mut cur = &t[..];
        let r = no_panic("parse_ss58", || parse_ss58(&mut cur))?;
        match (r, ref_ss58(&t)) {
            (None, None) => check(cur == t, || "consumed input but declined".into()),
            (Some(Ok(v)), Some((b, used))) => {
                check(v == bytes_value(&b), || format!("gave {v:?}, expected the bytes {}", crate::ctx::hex(&b)))?;
                check(cur == &t[used..], || format!("left {cur:?}, expected {:?}", &t[used..]))
            }
            (r, w) => Err(format!("gave {r:?}, expected {w:?}")),
        }
    };
    let addr = |prefix: &[u8], payload: &[u8]| -> String {
        let mut b = prefix.to_vec();
        b.extend_from_slice(payload);
        let s = checksum(&b);
        b.extend_from_slice(&s);
        b58enc(&b)
    };
    ctx.section("prefixes", 256 * 3, |c| {
        let mut p = vec![(c.idx % 256) as u8];
        if p[0] >= 64 && c.idx >= 256 {
            p.push(c.rng.u64() as u8);
        }
        let n = if c.idx < 512 { 32 } else { c.rng.size(41, 100) };
        let pl = c.rng.bytes(n);
        let t = addr(&p, &pl);
        let tail = *c.rng.pick(&["", " ", ", x", ")", "é", " (", "{", "_", "\u{3000}{", " é("]);
        one(c, format!("{t}{tail}"))
    });
    ctx.section("corrupt", 600, |c| {
        let pl = c.rng.bytes(32);
        let p = c.rng.below(128) as u8;
        let t = addr(&[p, 7][..if p < 64 { 1 } else { 2 }], &pl);
        let mut b: Vec<u8> = t.into_bytes();
        let i = (c.idx as usize) % b.len();
        match c.rng.below(4) {
            0 => b[i] = *c.rng.pick(b"0OIl"),
            1 => b[i] = *c.rng.pick(B58),
            2 => {
                b.remove(i);
            }
            _ => b.insert(i, *c.rng.pick(B58)),
        }
        one(c, String::from_utf8(b).unwrap())
    });
    ctx.section("short", 300 * 4, |c| {
        // few bytes: with a right checksum or off by one byte
        let n = c.rng.size(5, 100);
        let mut b = c.rng.bytes(n);
        if let Some(x) = b.first_mut() {
            *x &= 0x7f;
        }
        let s = checksum(&b);
        b.extend_from_slice(&s);
        match c.rng.below(4) {
            0 => {
                let i = c.rng.below(b.len());
                b[i] ^= 1 << c.rng.below(8)
            }
            1 => {
                b.pop();
            }
            _ => {}
        }
        one(c, b58enc(&b))
    });
    // numbers, keywords and names
    let n = ctx.n(4000, 200_000);
    ctx.section("words", n, |c| {
        let mut t = match c.rng.below(5) {
            0 => c.rng.pick(&["true", "false", "truee", "True", "", "0", "11", "112", "111"]).to_string(),
            1 => dec(c.rng.edgy_u128(), false),
            2 => {
                let n = c.rng.size(6, 100);
                (0..n).map(|_| *c.rng.pick(B58) as char).collect()
            }
            _ => c.rng.string(6),
        };
        if c.rng.bool() {
            t.push_str(c.rng.pick(&[" (", "{", "(1)", " x", ")", "\n{"]));
        }
        one(c, t)
    });
    // a digit-only run whose decoded bytes carry a right checksum must still be declined (searched for)
    ctx.section("digit addresses", 200, |c| {
        for _ in 0..400 {
            let n = c.rng.range(5, 8);
            let t: String = (0..n).map(|_| (b'1' + c.rng.below(9) as u8) as char).collect();
            let bytes = b58dec(&t).unwrap_or_default();
            if bytes.len() >= 3 && bytes[0] < 64 {
                let (body, sum) = bytes.split_at(bytes.len() - 2);
                if checksum(body) == sum {
                    return one(c, t);
                }
            }
        }
        Ok(())
    });
}

fn custom_p(s: &mut &str) -> Option<Result<Value<()>, ParseError>> {
    // nothing where a value should be: stands in a default and consumes nothing
    if s.starts_with([',', '^']) {
        return Some(Ok(Value::string("default")));
    }
    // #word -> string; consumes the word, with any characters up to whitespace or a closer
    let rest = s.strip_prefix('#')?;
    let end = rest.find(|c: char| c.is_whitespace() || ",)}".contains(c)).unwrap_or(rest.len());
    let w = &rest[..end];
    *s = &rest[end..];
    Some(Ok(Value::string(format!("#{w}"))))
}
fn custom_q(s: &mut &str) -> Option<Result<Value<()>, ParseError>> {
    // #€ first only, and a number literal override; error on '!'
    if let Some(r) = s.strip_prefix("#€") {
        *s = r;
        return Some(Ok(Value::bool(true)));
    }
    if s.starts_with("42") {
        *s = &s[2..];
        return Some(Ok(Value::char('!')));
    }
    if s.starts_with('!') {
        let n = s.chars().nth(1).map_or(0, char::len_utf8);
        return Some(Err(ParseErrorKind::Custom("no".into()).between(1, 1 + n)));
    }
    if s.starts_with('?') {
        return Some(Err(ParseErrorKind::Custom("why".into()).at(0)));
    }
    None
}
pub fn t07(ctx: &mut Ctx) {
    assumed(ctx);
    ctx.rule("bounded: generated texts with custom tokens (ASCII and not) at any place a value may start, both orders of two overlapping custom parsers, compared with a reference parser; distinct = distinct text and order");
    let toks = ["#abc", "#é漢😀", "#€", "#", "42", "!é", "?", "!", "#€x", "#x é", "421", "", "^"];
    let n = ctx.n(10000, 500_000);
    ctx.section("custom", n, |c| {
        let d = c.rng.below(4);
        let mut s = gen_text(&mut c.rng, d);
        // put custom tokens where values start
        for _ in 0..c.rng.below(4) {
            let spots: Vec<usize> = s.char_indices().filter(|(_, ch)| "(:,".contains(*ch)).map(|(i, ch)| i + ch.len_utf8()).chain([0]).collect();
            let i = *c.rng.pick(&spots);
            let t = *c.rng.pick(&toks);
            if c.rng.bool() {
                let end = s[i..].find(|ch| ",)}".contains(ch)).map_or(s.len(), |k| i + k);
                s.replace_range(i..end, t);
            } else {
                s.insert_str(i, t);
            }
        }
        let order = c.rng.bool();
        let mask = c.rng.below(4);
        c.input(format!("{s:?} order {order} parsers {mask}"));
        fn adapt(f: fn(&mut &str) -> Option<Result<Value<()>, ParseError>>) -> impl Fn(&str) -> Option<Result<(Value<()>, usize), ()>> {
            move |s: &str| {
                let mut cur = s;
                f(&mut cur).map(|r| r.map(|v| (v, s.chars().count() - cur.chars().count())).map_err(|_| ()))
            }
        }
        let (p, q) = (adapt(custom_p), adapt(custom_q));
        let mut refp = Parser::new(&s);
        let mut b = stringify::from_str_custom();
        // a parser that looks ahead and then declines changes nothing either
        if c.rng.bool() {
            b = b.add_custom_parser(|s| {
                *s = s.char_indices().nth(1).map_or("", |(i, _)| &s[i..]);
                None
            });
        }
        let fs: Vec<(fn(&mut &str) -> Option<Result<Value<()>, ParseError>>, &dyn Fn(&str) -> Option<Result<(Value<()>, usize), ()>>)> = if order { vec![(custom_p, &p), (custom_q, &q)] } else { vec![(custom_q, &q), (custom_p, &p)] };
        for (i, (f, a)) in fs.into_iter().enumerate() {
            if mask & (1 << i) == 0 {
                b = b.add_custom_parser(f);
                refp.custom.push(a);
            }
        }
        // a parser that always declines changes nothing
        b = b.add_custom_parser(|_| None);
        let want = refp.value();
        let at = refp.offset();
        let (r, rest) = no_panic("parse", || b.parse(&s))?;
        check(s.ends_with(rest), || format!("unparsed {rest:?} is not a suffix"))?;
        match (&r, &want) {
            (Ok(v), Ok(w)) => {
                check(v == w, || format!("parsed to {v:?}, expected {w:?}"))?;
                check(s.len() - rest.len() == at, || format!("left {rest:?}, expected {:?}", &s[at..]))
            }
            (Err(e), Err(())) => {
                check_error(&s, e)?;
                if let ParseErrorKind::Custom(k) = &e.err {
                    // the reference stopped at the same place, so the custom error is relative to it
                    let (st, en) = if k == "why" { (at, None) } else { (at + 1, Some(at + 1 + s[at..].chars().nth(1).map_or(0, char::len_utf8))) };
                    check(e.start_loc == st && e.end_loc == en, || format!("custom error reported at {}..{:?}, expected {st}..{en:?}", e.start_loc, e.end_loc))?;
                } else if refp.custom.is_empty() {
                    let (r2, _) = stringify::from_str(&s);
                    check(r2 == r, || format!("without custom parsers: {r2:?}, with only declining ones {r:?}"))?;
                }
                Ok(())
            }
            (Ok(v), Err(())) => Err(format!("accepted as {v:?}, expected an error")),
            (Err(e), Ok(w)) => Err(format!("rejected ({e}), expected {w:?}")),
        }
    });
    // each parser sees exactly the remaining text
    let n = ctx.n(2000, 100_000);
    ctx.section("sees rest", n, |c| {
        let s = gen_text(&mut c.rng, 3);
        c.input(format!("{s:?}"));
        let seen = std::rc::Rc::new(std::cell::RefCell::new(Vec::<String>::new()));
        let seen2 = seen.clone();
        let b = stringify::from_str_custom().add_custom_parser(move |s| {
            seen2.borrow_mut().push(s.to_string());
            None
        });
        let r = b.parse(&s);
        let plain = stringify::from_str(&s);
        check(r == plain, || format!("declining parser changed the result: {r:?} / {plain:?}"))?;
        let want = std::cell::RefCell::new(Vec::<String>::new());
        let f = |s: &str| -> Option<Result<(Value<()>, usize), ()>> {
            want.borrow_mut().push(s.to_string());
            None
        };
        let mut p = Parser::new(&s);
        p.custom.push(&f);
        let _ = p.value();
        let (seen, want) = (seen.borrow().clone(), want.borrow().clone());
        check(seen == want, || format!("custom parser was shown {seen:?}, expected {want:?}"))
    });
}

fn strip_ws(s: &str) -> String {
    let mut o = String::new();
    let mut q: Option<char> = None;
    let mut esc = false;
    for c in s.chars() {
        match q {
            Some(d) => {
                o.push(c);
                if esc {
                    esc = false;
                } else if c == '\\' {
                    esc = true;
                } else if c == d {
                    q = None;
                }
            }
            None => {
                if c == '"' || c == '\'' {
                    q = Some(c);
                }
                if !c.is_whitespace() {
                    o.push(c);
                }
            }
        }
    }
    o
}
pub fn t08(ctx: &mut Ctx) {
    assumed(ctx);
    ctx.rule("bounded: listed small and random values; all styles with random leading and step strings, with and without custom formatters and context printing, against an independent printer; distinct = distinct (value, options)");
    let one = |c: &mut Case, v: Value<u32>| -> Result<(), String> {
        let lead = c.rng.pick(&["", "", "****", "\t", "é "]).to_string();
        let step = c.rng.pick(&["  ", "", "\t", "--", "é"]).to_string();
        c.input(format!("{v:?} leading {lead:?} step {step:?}"));
        let mut texts = vec![];
        for st in [Style::Compact, Style::Normal, Style::Pretty] {
            let got = print(&v, st, &lead, &step)?;
            let want = Printer { style: st, lead: &lead, step: &step, custom: None, ctx: None }.value(&v, 0);
            check(got == want, || format!("{st:?}: printed {got:?}, expected {want:?}"))?;
            if st != Style::Pretty {
                texts.push(got);
            }
        }
        let ps = print(&v, Style::Pretty, "", " ")?;
        texts.push(ps);
        let t0 = strip_ws(&texts[0]);
        for t in &texts {
            check(strip_ws(t) == t0, || format!("{t:?} and {:?} differ in more than whitespace", texts[0]))?;
        }
        // Display of the parts
        check(v.to_string() == texts[1] && v.value.to_string() == texts[1], || "Display differs from the default style".into())?;
        check(format!("{v:#}") == Printer::plain(Style::Pretty).value(&v, 0), || "alternate Display differs from the indented style".into())?;
        match &v.value {
            ValueDef::Composite(x) => check(x.to_string() == texts[1], || "Display of the composite differs".into())?,
            ValueDef::Variant(x) => check(x.to_string() == texts[1], || "Display of the variant differs".into())?,
            ValueDef::Primitive(x) => check(x.to_string() == texts[1], || "Display of the primitive differs".into())?,
            _ => {}
        }
        Ok(())
    };
    let small = small_values();
    ctx.section("small", small.len() as u64, |c| {
        let v = gen::map(&small[c.idx as usize], &mut |_| 5);
        one(c, v)
    });
    let n = ctx.n(6000, 300_000);
    ctx.section("random", n, |c| {
        let d = c.rng.below(5);
        let v = gen::value(&mut c.rng, d, false);
        one(c, v)
    });
    // deep nesting, where each level is indented by one more step
    let n = ctx.n(60, 400);
    ctx.section("deep", n, |c| {
        let d = c.rng.range(5, 40);
        let mut v = gen::value(&mut c.rng, 1, false);
        for _ in 0..d {
            let mut vs = vec![v];
            if c.rng.below(4) == 0 {
                let x = Value { value: ValueDef::Primitive(Primitive::Bool(true)), context: 0 };
                if c.rng.bool() { vs.push(x) } else { vs.insert(0, x) }
            }
            let comp = if c.rng.bool() { Composite::Unnamed(vs) } else { Composite::Named(vs.into_iter().map(|v| ("a b".to_string(), v)).collect()) };
            v = Value { value: if c.rng.below(3) == 0 { ValueDef::Variant(scale_value::Variant { name: "V".into(), values: comp }) } else { ValueDef::Composite(comp) }, context: 0 };
        }
        one(c, v)
    });
    // custom formatters and context
    fn f1(v: &Value<u32>) -> Option<String> {
        match &v.value {
            ValueDef::Primitive(Primitive::U128(n)) if n % 2 == 0 => Some(format!("even[{}]", v.context)),
            ValueDef::Variant(x) if x.name.len() % 3 == 1 => Some("VAR".to_string()),
            _ => None,
        }
    }
    fn f2(v: &Value<u32>) -> Option<String> {
        match &v.value {
            ValueDef::Primitive(Primitive::U128(_)) => Some("num".to_string()),
            ValueDef::Composite(Composite::Unnamed(x)) if x.len() == 2 => Some(String::new()),
            _ => None,
        }
    }
    let n = ctx.n(6000, 300_000);
    ctx.section("custom", n, |c| {
        let d = c.rng.below(5);
        let v = gen::value(&mut c.rng, d, false);
        let order = c.rng.bool();
        let with_ctx = c.rng.bool();
        let st = *c.rng.pick(&[Style::Compact, Style::Normal, Style::Pretty]);
        c.input(format!("{v:?} order {order} context {with_ctx} {st:?}"));
        let b = stringify::to_writer_custom::<u32, Shared>();
        let b = match st {
            Style::Compact => b.compact(),
            Style::Normal => b,
            Style::Pretty => b.pretty().leading_indent("#").indent_by("."),
        };
        let w = |f: fn(&Value<u32>) -> Option<String>| move |v: &Value<u32>, w: &mut Shared| f(v).map(|s| w.write_str(&s));
        let b = if order { b.add_custom_formatter(w(f1)).add_custom_formatter(w(f2)) } else { b.add_custom_formatter(w(f2)).add_custom_formatter(w(f1)) };
        let b = if with_ctx { b.format_context(|c, w: &mut Shared| write!(w, "ctx {c}")) } else { b };
        let out = Shared::default();
        b.write(&v, out.clone()).map_err(|_| "printing failed".to_string())?;
        let s = out.text();
        let comb = |v: &Value<u32>| if order { f1(v).or_else(|| f2(v)) } else { f2(v).or_else(|| f1(v)) };
        let cx = |c: &u32| format!("ctx {c}");
        let want = Printer { style: st, lead: "#", step: ".", custom: Some(&comb), ctx: if with_ctx { Some(&cx) } else { None } }.value(&v, 0);
        check(s == want, || format!("printed {s:?}, expected {want:?}"))
    });
}
#[allow(dead_code)]
fn unused(_: &mut Rng) {}
