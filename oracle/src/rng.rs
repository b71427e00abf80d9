//! Deterministic pseudo-random numbers (splitmix64); every case is derived from (seed, section, case).
//! A dictionary of the literals in the source under test (--dict) is mixed in: sizes, numbers, chars and names that the
//! code treats specially are worth more than random ones. Literals that are new since the checks were written come first.
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u128>,
    pub chars: Vec<char>,
    pub strings: Vec<String>,
}
pub static KNOWN: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub static NEW: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
/// one literal per line: kind (i, c, s; upper case: new), a space, the number, code point, or hex of the UTF-8 text
pub fn load_dict(text: &str) {
    let (mut old, mut new) = (Dict::default(), Dict::default());
    for l in text.lines() {
        let Some((k, x)) = l.split_once(' ') else { continue };
        let d = if k.chars().all(|c| c.is_ascii_uppercase()) { &mut new } else { &mut old };
        match k.to_ascii_lowercase().as_str() {
            "i" => d.ints.extend(x.parse::<u128>().ok()),
            "c" => d.chars.extend(x.parse::<u32>().ok().and_then(char::from_u32)),
            _ => {
                let b: Option<Vec<u8>> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect();
                d.strings.extend(b.and_then(|b| String::from_utf8(b).ok()));
            }
        }
    }
    let _ = KNOWN.set(old);
    let _ = NEW.set(new);
}
pub struct Rng(u64, usize);
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, section: &str, case: u64) -> Rng {
        let mut h = mix(seed ^ 0x5ca1e);
        for b in section.bytes() {
            h = mix(h ^ b as u64);
        }
        Rng(mix(h ^ mix(case.wrapping_add(1))), 100_000)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    fn from_dict<T: Clone>(&mut self, f: fn(&Dict) -> &Vec<T>) -> Option<T> {
        let (k, n) = (KNOWN.get().map(f).filter(|v| !v.is_empty()), NEW.get().map(f).filter(|v| !v.is_empty()));
        let v = match (k, n) {
            (Some(k), Some(n)) => if self.bool() { k } else { n },
            (Some(v), None) | (None, Some(v)) => v,
            _ => return None,
        };
        Some(self.pick(v).clone())
    }
    fn novel(&self) -> bool {
        NEW.get().is_some_and(|d| !d.ints.is_empty() || !d.chars.is_empty() || !d.strings.is_empty())
    }
    /// a number of the source, or one beside it
    fn dict_int(&mut self) -> Option<u128> {
        let d = self.from_dict(|d| &d.ints)?;
        let k = self.below(3) as u128;
        Some(d.wrapping_add(k).wrapping_sub(1))
    }
    /// below n, or a size that occurs in the source (at most max)
    pub fn size(&mut self, n: usize, max: usize) -> usize {
        let odds = if self.novel() { 12 } else { 40 };
        if self.chance(1, odds) {
            if let Some(d) = self.dict_int() {
                if d <= max.min(self.1) as u128 && (d <= 3000 || self.chance(1, 10)) {
                    self.1 /= d as usize + 1; // sizes multiply when lists nest
                    return d as usize;
                }
            }
        }
        self.below(n)
    }
    /// 0, or (rarely) a depth to nest at
    pub fn layers(&mut self, max: usize) -> usize {
        if self.chance(1, 12) { self.size(12, max).min(max) } else { 0 }
    }
    pub fn dict_string(&mut self) -> Option<String> {
        if self.chance(1, 8) { self.from_dict(|d| &d.strings) } else { None }
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// A u128 biased to boundaries of all the integer widths.
    pub fn edgy_u128(&mut self) -> u128 {
        if self.chance(1, 8) {
            if let Some(d) = self.dict_int() {
                return d;
            }
        }
        match self.below(5) {
            0 => self.below(300) as u128,
            1 => {
                let bits = *self.pick(&[6u32, 7, 8, 14, 15, 16, 30, 31, 32, 63, 64, 127]);
                let b = 1u128 << bits;
                let d = self.below(3) as u128;
                b.wrapping_add(d).wrapping_sub(1)
            }
            2 => u128::MAX - self.below(3) as u128,
            _ => {
                let sh = self.below(128) as u32;
                self.u128() >> sh
            }
        }
    }
    pub fn edgy_i128(&mut self) -> i128 {
        match self.below(4) {
            0 => self.edgy_u128() as i128,
            1 => (self.edgy_u128() as i128).wrapping_neg(),
            2 => {
                let bits = *self.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
                let b = 1i128.wrapping_shl(bits);
                let d = self.below(3) as i128;
                b.wrapping_neg().wrapping_sub(d).wrapping_add(1)
            }
            _ => {
                let sh = self.below(128) as u32;
                (self.u128() as i128) >> sh
            }
        }
    }
    pub fn char(&mut self) -> char {
        const SPECIAL: &[char] = &[
            '\0', '\n', '\t', '\r', '"', '\'', '\\', ' ', '{', '}', '(', ')', '<', '>', ',', ':', '_', '-', '+', 'v',
            'n', 't', 'r', '0', '1', '9', 'a', 'z', 'A', 'é', 'ß', '漢', '😀', '\u{a0}', '\u{2028}', '\u{3000}', 'ª',
            '²', '٣', '½', '\u{7f}', '\u{80}', '\u{fffd}', '\u{10ffff}', 'İ', '\u{0301}', '#', '/', '\u{b}', '\u{c}',
            '\u{1}', '\u{1b}', '\u{85}', 'f', 'x', 'b', 'u', '`', '$', '%',
        ];
        if self.chance(1, 10) {
            if let Some(c) = self.from_dict(|d| &d.chars) {
                return c;
            }
        }
        match self.below(4) {
            0 => (0x20 + self.below(0x5f)) as u8 as char,
            1 | 2 => *self.pick(SPECIAL),
            _ => loop {
                if let Some(c) = char::from_u32(self.u64() as u32 % 0x110000) {
                    return c;
                }
            },
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        if let Some(s) = self.dict_string() {
            return s;
        }
        let n = self.size(max + 1, 3000);
        (0..n).map(|_| self.char()).collect()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}
