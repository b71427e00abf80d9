//! An independent reference for the text format: printer and parser, written from the documented syntax.
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use crate::reg::{bitseq, bits_of};

pub const ESC: [(char, char); 7] = [('n', '\n'), ('t', '\t'), ('"', '"'), ('\'', '\''), ('r', '\r'), ('\\', '\\'), ('0', '\0')];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Compact,
    Normal,
    Pretty,
}
pub struct Printer<'a, T> {
    pub style: Style,
    pub lead: &'a str,
    pub step: &'a str,
    pub custom: Option<&'a dyn Fn(&Value<T>) -> Option<String>>,
    pub ctx: Option<&'a dyn Fn(&T) -> String>,
}
pub fn ident(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    !cs.is_empty() && cs[0].is_alphabetic() && cs[1..].iter().all(|c| c.is_alphanumeric() || *c == '_')
}
pub fn quote(s: &str, q: char) -> String {
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        match ESC.iter().find(|e| e.1 == c) {
            Some(e) => {
                o.push('\\');
                o.push(e.0)
            }
            None => o.push(c),
        }
    }
    o.push(q);
    o
}
impl<'a, T> Printer<'a, T> {
    pub fn plain(style: Style) -> Self {
        Printer { style, lead: "", step: "  ", custom: None, ctx: None }
    }
    fn nl(&self, n: usize) -> String {
        format!("\n{}{}", self.lead, self.step.repeat(n))
    }
    fn gap(&self, n: usize) -> String {
        match self.style {
            Style::Compact => String::new(),
            Style::Normal => " ".into(),
            Style::Pretty => self.nl(n),
        }
    }
    pub fn value(&self, v: &Value<T>, n: usize) -> String {
        let mut o = String::new();
        if let Some(c) = self.ctx {
            o.push_str(&format!("<{}> ", c(&v.context)));
        }
        if let Some(s) = self.custom.and_then(|f| f(v)) {
            o.push_str(&s);
            return o;
        }
        o.push_str(&match &v.value {
            ValueDef::Composite(c) => self.composite(c, n),
            ValueDef::Variant(x) => {
                let name = if ident(&x.name) && x.name != "true" && x.name != "false" { x.name.clone() } else { format!("v{}", quote(&x.name, '"')) };
                let sp = if self.style == Style::Compact { "" } else { " " };
                format!("{name}{sp}{}", self.composite(&x.values, n))
            }
            ValueDef::BitSequence(b) => format!("<{}>", bits_of(b).iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()),
            ValueDef::Primitive(p) => match p {
                Primitive::Bool(b) => if *b { "true".into() } else { "false".into() },
                Primitive::Char(c) => quote(&c.to_string(), '\''),
                Primitive::String(s) => quote(s, '"'),
                Primitive::U128(n) => dec(*n, false),
                Primitive::I128(n) => dec(n.unsigned_abs(), *n < 0),
                _ => panic!("256-bit numbers have no text form"),
            },
        });
        o
    }
    fn composite(&self, c: &Composite<T>, n: usize) -> String {
        let sp = if self.style == Style::Compact { "" } else { " " };
        match c {
            Composite::Named(xs) if xs.is_empty() => "{}".into(),
            Composite::Unnamed(xs) if xs.is_empty() => "()".into(),
            Composite::Named(xs) => {
                let items: Vec<String> = xs
                    .iter()
                    .map(|(k, x)| {
                        let k = if ident(k) { k.clone() } else { quote(k, '"') };
                        format!("{k}:{sp}{}", self.value(x, n + 1))
                    })
                    .collect();
                format!("{{{}{}{}}}", self.gap(n + 1), items.join(&format!(",{}", self.gap(n + 1))), self.gap(n))
            }
            Composite::Unnamed(xs) => {
                let items: Vec<String> = xs.iter().map(|x| self.value(x, n + 1)).collect();
                let (a, b) = if self.style == Style::Pretty { (self.nl(n + 1), self.nl(n)) } else { (String::new(), String::new()) };
                format!("({a}{}{b})", items.join(&format!(",{}", self.gap(n + 1))))
            }
        }
    }
}
/// decimal digits, written out by hand
pub fn dec(mut n: u128, neg: bool) -> String {
    let mut d = vec![];
    loop {
        d.push((b'0' + (n % 10) as u8) as char);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    if neg {
        d.push('-');
    }
    d.iter().rev().collect()
}

pub struct Parser<'a> {
    pub s: Vec<char>,
    pub i: usize,
    /// custom parsers: given the remaining text, maybe a result and the number of chars consumed
    pub custom: Vec<&'a dyn Fn(&str) -> Option<Result<(Value<()>, usize), ()>>>,
}
type R<T> = Result<T, ()>;
impl<'a> Parser<'a> {
    pub fn new(s: &str) -> Self {
        Parser { s: s.chars().collect(), i: 0, custom: vec![] }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(|c| c.is_whitespace()) {
            self.i += 1;
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_alphanumeric() || c == '_') {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect()
    }
    pub fn value(&mut self) -> R<Value<()>> {
        if !self.custom.is_empty() {
            let rest: String = self.s[self.i..].iter().collect();
            for f in &self.custom {
                if let Some(r) = f(&rest) {
                    let (v, n) = r?;
                    self.i += n;
                    return Ok(v);
                }
            }
        }
        match self.peek().ok_or(())? {
            '\'' => {
                self.i += 1;
                let c = self.ch()?;
                if self.eat('\'') { Ok(Value::char(c)) } else { Err(()) }
            }
            '"' => self.string().map(Value::string),
            '0'..='9' | '+' | '-' => self.number().map(Value::primitive),
            '{' | '(' => self.composite().map(|c| Value { value: ValueDef::Composite(c), context: () }),
            '<' => {
                self.i += 1;
                let mut b = vec![];
                loop {
                    match self.peek() {
                        Some('0') => b.push(false),
                        Some('1') => b.push(true),
                        Some('>') => {
                            self.i += 1;
                            return Ok(Value::bit_sequence(bitseq(&b)));
                        }
                        _ => return Err(()),
                    }
                    self.i += 1;
                }
            }
            'v' if self.s.get(self.i + 1) == Some(&'"') => {
                self.i += 1;
                let name = self.string()?;
                self.ws();
                let values = self.composite()?;
                Ok(Value { value: ValueDef::Variant(Variant { name, values }), context: () })
            }
            c if c.is_alphabetic() => {
                let name = self.word();
                if name == "true" || name == "false" {
                    return Ok(Value::bool(name == "true"));
                }
                self.ws();
                let values = self.composite()?;
                Ok(Value { value: ValueDef::Variant(Variant { name, values }), context: () })
            }
            _ => Err(()),
        }
    }
    fn ch(&mut self) -> R<char> {
        let c = self.peek().ok_or(())?;
        self.i += 1;
        if c == '\\' {
            let e = self.peek().ok_or(())?;
            self.i += 1;
            ESC.iter().find(|x| x.0 == e).map(|x| x.1).ok_or(())
        } else {
            Ok(c)
        }
    }
    fn string(&mut self) -> R<String> {
        if !self.eat('"') {
            return Err(());
        }
        let mut o = String::new();
        loop {
            if self.eat('"') {
                return Ok(o);
            }
            o.push(self.ch()?);
        }
    }
    fn number(&mut self) -> R<Primitive> {
        let neg = if self.eat('+') { false } else { self.eat('-') };
        if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
            return Err(());
        }
        let mut mag: Option<u128> = Some(0);
        while let Some(c) = self.peek() {
            if c.is_ascii_digit() {
                let d = c as u128 - '0' as u128;
                mag = mag.and_then(|m| m.checked_mul(10)).and_then(|m| m.checked_add(d));
            } else if c != '_' {
                break;
            }
            self.i += 1;
        }
        let mag = mag.ok_or(())?;
        if neg {
            if mag > 1 << 127 {
                return Err(());
            }
            Ok(Primitive::I128((mag as i128).wrapping_neg()))
        } else {
            Ok(Primitive::U128(mag))
        }
    }
    fn composite(&mut self) -> R<Composite<()>> {
        let close = if self.eat('{') {
            '}'
        } else if self.eat('(') {
            ')'
        } else {
            return Err(());
        };
        let mut named = vec![];
        let mut unnamed = vec![];
        self.ws();
        if !self.eat(close) {
            loop {
                if close == '}' {
                    let k = if self.peek() == Some('"') {
                        self.string()?
                    } else if self.peek().is_some_and(|c| c.is_alphabetic()) {
                        self.word()
                    } else {
                        return Err(());
                    };
                    self.ws();
                    if !self.eat(':') {
                        return Err(());
                    }
                    self.ws();
                    named.push((k, self.value()?));
                } else {
                    unnamed.push(self.value()?);
                }
                self.ws();
                if self.eat(close) {
                    break;
                }
                if !self.eat(',') {
                    return Err(());
                }
                self.ws();
            }
        }
        Ok(if close == '}' { Composite::Named(named) } else { Composite::Unnamed(unnamed) })
    }
    /// byte offset of the position
    pub fn offset(&self) -> usize {
        self.s[..self.i].iter().map(|c| c.len_utf8()).sum()
    }
}
/// Text mutations and a grammar-ish generator.
pub fn gen_text(rng: &mut crate::rng::Rng, depth: usize) -> String {
    let ws = |rng: &mut crate::rng::Rng| -> String {
        if rng.chance(1, 3) {
            (0..rng.size(3, 300)).map(|_| *rng.pick(&[' ', '\n', '\t', '\u{a0}', '\u{3000}', '\u{2028}', '\u{85}'])).collect()
        } else {
            String::new()
        }
    };
    match rng.below(if depth == 0 { 7 } else { 11 }) {
        0 => rng.pick(&["true", "false", "trueish", "false_", "tru", "v", "v\"x\"", "true1"]).to_string(),
        1 => quote(&rng.char().to_string(), '\''),
        2 => quote(&rng.string(5), '"'),
        3 | 4 => {
            let mut s = rng.pick(&["", "", "+", "-"]).to_string();
            s.push_str(&match rng.below(4) {
                0 => dec(rng.edgy_u128(), false),
                1 => rng
                    .pick(&[
                        "340282366920938463463374607431768211455",
                        "340282366920938463463374607431768211456",
                        "170141183460469231731687303715884105728",
                        "170141183460469231731687303715884105729",
                        "170141183460469231731687303715884105727",
                        "99999999999999999999999999999999999999999999",
                        "0000000000000000000000000000000000000000000000000000001",
                    ])
                    .to_string(),
                _ => dec(rng.below(100000) as u128, false),
            });
            if rng.chance(1, 3) {
                let at = rng.below(s.len() + 1);
                s.insert(at, '_');
            }
            s
        }
        5 => format!("<{}>", (0..rng.size(9, 3000)).map(|_| if rng.bool() { '1' } else { '0' }).collect::<String>()),
        6 => rng.string(6),
        7 | 8 => {
            let n = rng.size(4, 300);
            let (o, c) = if rng.bool() { ('{', '}') } else { ('(', ')') };
            let mut s = o.to_string();
            s.push_str(&ws(rng));
            for i in 0..n {
                if i > 0 {
                    s.push_str(&ws(rng));
                    s.push(',');
                    s.push_str(&ws(rng));
                }
                if o == '{' {
                    if rng.bool() {
                        s.push_str(rng.pick(&["a", "foo", "été", "a_1", "true", "漢", "a²"]));
                    } else {
                        let k = rng.string(4);
                        s.push_str(&quote(&k, '"'));
                    }
                    s.push_str(&ws(rng));
                    s.push(':');
                    s.push_str(&ws(rng));
                }
                s.push_str(&gen_text(rng, depth - 1));
            }
            s.push_str(&ws(rng));
            s.push(c);
            s
        }
        _ => {
            let mut s = if rng.bool() { rng.pick(&["Foo", "v", "true_", "falseé", "x", "v1", "vé", "True"]).to_string() } else { format!("v{}", quote(&rng.string(4), '"')) };
            s.push_str(&ws(rng));
            s.push_str(&match rng.below(3) {
                0 => "()".to_string(),
                1 => "{}".to_string(),
                _ => format!("({})", gen_text(rng, depth - 1)),
            });
            s
        }
    }
}
pub fn mutate(rng: &mut crate::rng::Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..rng.below(3) {
        match rng.below(3) {
            0 if !cs.is_empty() => {
                let i = rng.below(cs.len());
                cs.remove(i);
            }
            1 => {
                let i = rng.below(cs.len() + 1);
                cs.insert(i, rng.char());
            }
            _ if !cs.is_empty() => {
                let i = rng.below(cs.len());
                cs[i] = rng.char();
            }
            _ => {}
        }
    }
    if rng.chance(1, 4) {
        cs.truncate(rng.below(cs.len() + 1));
    }
    if rng.chance(1, 4) {
        let t = rng.string(3);
        cs.extend(t.chars());
    }
    cs.into_iter().collect()
}
