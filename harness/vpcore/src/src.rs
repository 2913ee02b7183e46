//! Choice source: every random decision of a case is one recorded integer, so a case is a pure
//! function of its choice list; shrinking edits the list, replay feeds it back.
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r ^ (r >> 29)
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9abc_def0;
    for p in parts {
        s ^= *p;
        s = splitmix(&mut s);
    }
    s
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub record: Vec<u64>,
    trace: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, record: Vec::with_capacity(256), trace: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(choices), pos: 0, record: Vec::with_capacity(256), trace: None }
    }
    pub fn with_trace(mut self, f: std::fs::File) -> Self {
        self.trace = Some(f);
        self
    }
    /// A choice in 0..n (n == 0: any u64). 0 is always the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = crate::alloc::untracked(|| {
            let v = match &mut self.mode {
                Mode::Random(r) => {
                    let x = r.next();
                    if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
                }
                Mode::Replay(c) => {
                    let x = c.get(self.pos).copied().unwrap_or(0);
                    if n == 0 { x } else { x.min(n - 1) }
                }
            };
            self.pos += 1;
            self.record.push(v);
            if let Some(f) = &mut self.trace {
                let _ = writeln!(f, "{v}");
            }
            v
        });
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { self.draw(n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability num/den (false is the simple choice).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // highest values are "true" so that shrinking to 0 gives false
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Weighted index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.draw(total.max(1));
        for (i, wi) in w.iter().enumerate() {
            if x < *wi as u64 {
                return i;
            }
            x -= *wi as u64;
        }
        0
    }
    /// A collection length: mostly small, sometimes up to max. (One choice per element is drawn
    /// by `more`, so deleting choices deletes elements.)
    pub fn more(&mut self, sofar: usize, max: usize, p_num: u64, p_den: u64) -> bool {
        sofar < max && self.chance(p_num, p_den)
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.draw(0) as u128) << 64) | self.draw(0) as u128
    }
    /// Boundary-biased unsigned integer of `bits` bits.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let mask: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.weighted(&[4, 3, 3, 2]) {
            0 => self.draw(16) as u128 & mask,
            1 => {
                // around a power of two
                let k = self.below(bits as usize) as u32;
                let base = 1u128 << k;
                let d = self.draw(5) as i128 - 2;
                base.wrapping_add(d as u128) & mask
            }
            2 => {
                let v = if bits > 64 { self.u128() } else { self.u64() as u128 };
                v & mask
            }
            _ => {
                let d = self.draw(4) as u128;
                mask - d.min(mask)
            }
        }
    }
    pub fn int(&mut self, bits: u32) -> i128 {
        let u = self.uint(bits);
        // sign-extend
        let sh = 128 - bits;
        let v = ((u << sh) as i128) >> sh;
        match self.draw(3) {
            0 => v,
            1 => {
                let n = v.wrapping_neg();
                ((n << sh) as i128) >> sh
            }
            _ => {
                // near the extremes
                let min = i128::MIN >> sh;
                let max = i128::MAX >> sh;
                let d = self.draw(3) as i128;
                if self.bool() { min + d } else { max - d }
            }
        }
    }
    pub fn f64(&mut self, finite: bool) -> f64 {
        let v = match self.weighted(&[3, 4, 3, 3, 2]) {
            0 => *self.pick(&[0.0, 1.0, -1.0, 0.5, -0.0, 0.1, 1.5, 100.0]),
            1 => self.int(54) as f64,
            2 => f64::from_bits(self.u64()),
            3 => {
                let a = self.int(20) as f64;
                let e = self.range(0, 40) as i32 - 20;
                a * 10f64.powi(e)
            }
            _ => *self.pick(&[
                f64::MAX,
                f64::MIN,
                f64::MIN_POSITIVE,
                f64::EPSILON,
                5e-324,
                9007199254740993.0,
                1e300,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::NAN,
            ]),
        };
        if finite && !v.is_finite() { 0.25 } else { v }
    }
    pub fn f32(&mut self, finite: bool) -> f32 {
        let v = match self.weighted(&[3, 4, 3, 2]) {
            0 => *self.pick(&[0.0f32, 1.0, -1.0, 0.5, -0.0, 0.1, 1.5, 100.0]),
            1 => self.int(25) as f32,
            2 => f32::from_bits(self.draw(1 << 32) as u32),
            _ => *self.pick(&[
                f32::MAX,
                f32::MIN,
                f32::MIN_POSITIVE,
                f32::EPSILON,
                1e-45,
                16777217.0,
                f32::INFINITY,
                f32::NEG_INFINITY,
                f32::NAN,
            ]),
        };
        if finite && !v.is_finite() { 0.25 } else { v }
    }
    pub fn char(&mut self) -> char {
        match self.weighted(&[8, 3, 2, 2, 1, 2]) {
            0 => (b'a' + self.draw(26) as u8) as char,
            1 => (0x20 + self.draw(0x5f) as u8) as char,
            2 => *self.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\'', '\0', '\u{7f}', '\u{1b}', '%', '&', '+', '=', '[', ']', '#', ':', '{', '}', ',', '-', ' ', '<', '>']),
            3 => *self.pick(&['é', 'ß', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '中', '🦀', '\u{d7ff}', '\u{e000}', '\u{2028}', '\u{feff}', '\u{85}', '\u{a0}']),
            4 => (self.draw(0x20) as u8) as char,
            _ => char::from_u32(self.draw(0x110000) as u32).unwrap_or('\u{fffd}'),
        }
    }
    /// A name that someone might take for `n`.
    pub fn near_name(&mut self, n: &str) -> String {
        let first = n.chars().next().map_or(0, |c| c.len_utf8());
        let last = n.char_indices().last().map_or(0, |(i, _)| i);
        match self.below(20) {
            0 => format!("{n}_"),
            1 => format!("_{n}"),
            2 => n.to_uppercase(),
            3 => n.to_lowercase(),
            4 => n[..last].to_string(),
            5 => n[first..].to_string(),
            6 => format!("{n} "),
            7 => format!(" {n}"),
            8 => format!("{n}{}", &n[last..]),
            9 => n.replace('_', "-"),
            10 => n.replace('_', ""),
            11 => n.trim_matches('_').to_string(),
            12 => {
                let mut c = n.chars();
                c.next().map(|x| if x.is_uppercase() { x.to_lowercase().to_string() } else { x.to_uppercase().to_string() }).unwrap_or_default() + c.as_str()
            }
            13 => format!("r#{n}"),
            14 => n.chars().rev().collect(),
            15 => format!("{n}\0"),
            16 => format!("{n}{}", self.below(3)),
            17 => self.below(12).to_string(),
            18 => {
                let mut up = false;
                n.chars().fold(String::new(), |mut o, c| {
                    if c == '_' {
                        up = true;
                    } else if std::mem::take(&mut up) {
                        o.extend(c.to_uppercase());
                    } else {
                        o.push(c);
                    }
                    o
                })
            }
            _ => n.chars().map(|c| if c.is_ascii_alphabetic() { (c as u8 ^ 32) as char } else { c }).collect(),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let mut s = String::new();
        let mut n = 0;
        let plain = self.chance(1, 3);
        while self.more(n, max, 7, 8) {
            s.push(if plain { (b'a' + self.draw(26) as u8) as char } else { self.char() });
            n += 1;
        }
        s
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // choice 0 keeps the order
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Random(_) => false,
            Mode::Replay(c) => self.pos >= c.len(),
        }
    }
}
