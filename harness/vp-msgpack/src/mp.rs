//! MessagePack, from its specification: a reader and a writer that chooses its formats.
use vpcore::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Nil,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    /// as bytes: they need not be UTF-8
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Ext(i8, Vec<u8>),
    Arr(Vec<Doc>),
    Map(Vec<(Doc, Doc)>),
    /// nested too deeply to look into
    Deep,
}

pub struct Reader<'a> {
    b: &'a [u8],
    pub at: usize,
    /// every header was the shortest possible
    pub compact: bool,
    /// end of every header and every payload, where truncation cuts an object
    pub cuts: Vec<usize>,
}

impl<'a> Reader<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Reader { b, at: 0, compact: true, cuts: vec![] }
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() - self.at < n {
            return None;
        }
        let s = &self.b[self.at..self.at + n];
        self.at += n;
        self.cuts.push(self.at);
        Some(s)
    }
    fn be(&mut self, n: usize) -> Option<u64> {
        Some(self.take(n)?.iter().fold(0u64, |a, x| a << 8 | *x as u64))
    }
    fn len(&mut self, width: usize, least: u64) -> Option<usize> {
        let n = self.be(width)?;
        self.compact &= n >= least;
        Some(n as usize)
    }
    fn int(&mut self, width: usize, signed: bool) -> Option<Doc> {
        let raw = self.be(width)?;
        let n = if signed {
            let sh = 64 - 8 * width as u32;
            ((raw << sh) as i64 >> sh) as i128
        } else {
            raw as i128
        };
        // the shortest format: fixint, then the first unsigned (or, below zero, signed) that fits
        let best = if (-32..128).contains(&n) {
            0
        } else if n >= 0 {
            [1usize, 2, 4, 8].into_iter().find(|w| n < 1i128 << (8 * w)).unwrap()
        } else {
            [1usize, 2, 4, 8].into_iter().find(|w| n >= -(1i128 << (8 * w - 1))).unwrap()
        };
        // a non-negative number may also sit in a signed format of the same width
        self.compact &= best == width;
        Some(Doc::Int(n))
    }
    pub fn value(&mut self, depth: usize) -> Option<Doc> {
        if depth == 0 {
            return self.skip();
        }
        let h = self.take(1)?[0];
        Some(match h {
            0x00..=0x7f => Doc::Int(h as i128),
            0x80..=0x8f => self.map((h & 15) as usize, depth)?,
            0x90..=0x9f => self.arr((h & 15) as usize, depth)?,
            0xa0..=0xbf => Doc::Str(self.take((h & 31) as usize)?.to_vec()),
            0xc0 => Doc::Nil,
            0xc1 => return None,
            0xc2 => Doc::Bool(false),
            0xc3 => Doc::Bool(true),
            0xc4..=0xc6 => {
                let w = 1 << (h - 0xc4);
                let n = self.len(w, if w == 1 { 0 } else { 1 << (4 * w) })?;
                Doc::Bin(self.take(n)?.to_vec())
            }
            0xc7..=0xc9 => {
                let w = 1 << (h - 0xc7);
                let n = self.len(w, if w == 1 { 0 } else { 1 << (4 * w) })?;
                let t = self.take(1)?[0] as i8;
                Doc::Ext(t, self.take(n)?.to_vec())
            }
            0xca => Doc::F32(self.be(4)? as u32),
            0xcb => Doc::F64(self.be(8)?),
            0xcc..=0xcf => self.int(1 << (h - 0xcc), false)?,
            0xd0..=0xd3 => self.int(1 << (h - 0xd0), true)?,
            0xd4..=0xd8 => {
                let t = self.take(1)?[0] as i8;
                Doc::Ext(t, self.take(1 << (h - 0xd4))?.to_vec())
            }
            0xd9..=0xdb => {
                let w = 1 << (h - 0xd9);
                let n = self.len(w, [32, 256, 0, 65536][w - 1])?;
                Doc::Str(self.take(n)?.to_vec())
            }
            0xdc => {
                let n = self.len(2, 16)?;
                self.arr(n, depth)?
            }
            0xdd => {
                let n = self.len(4, 65536)?;
                self.arr(n, depth)?
            }
            0xde => {
                let n = self.len(2, 16)?;
                self.map(n, depth)?
            }
            0xdf => {
                let n = self.len(4, 65536)?;
                self.map(n, depth)?
            }
            0xe0..=0xff => Doc::Int(h as i8 as i128),
        })
    }
    fn arr(&mut self, n: usize, depth: usize) -> Option<Doc> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.value(depth - 1)?);
        }
        Some(Doc::Arr(v))
    }
    fn map(&mut self, n: usize, depth: usize) -> Option<Doc> {
        let mut v = vec![];
        for _ in 0..n {
            let k = self.value(depth - 1)?;
            v.push((k, self.value(depth - 1)?));
        }
        Some(Doc::Map(v))
    }
    /// Over one object, without recursion.
    fn skip(&mut self) -> Option<Doc> {
        let mut left = 1u64;
        while left > 0 {
            left -= 1;
            let h = *self.b.get(self.at)?;
            let w = match h {
                0x80..=0x8f => Some((0, 2 * (h & 15) as u64)),
                0x90..=0x9f => Some((0, (h & 15) as u64)),
                0xdc => Some((2, 1)),
                0xdd => Some((4, 1)),
                0xde => Some((2, 2)),
                0xdf => Some((4, 2)),
                _ => None,
            };
            match w {
                None => {
                    self.value(1)?;
                }
                Some((w, k)) => {
                    self.take(1)?;
                    left += if w == 0 { k } else { self.be(w)? * k };
                }
            }
        }
        Some(Doc::Deep)
    }
}

/// How the writer picks among the formats that fit.
#[derive(Clone, Copy)]
pub struct Style {
    /// in eighths: how often a wider format than needed
    pub wide: u64,
    /// signed formats for non-negative numbers
    pub signed: bool,
}
impl Style {
    pub const SHORT: Style = Style { wide: 0, signed: false };
    pub fn pick(s: &mut Src) -> Style {
        Style { wide: *s.pick(&[0, 1, 4, 8]), signed: s.bool() }
    }
}

fn wider(s: &mut Src, st: Style, fits: &mut dyn FnMut(usize) -> bool) -> usize {
    let ok: Vec<usize> = (0..4).filter(|i| fits(*i)).collect();
    if st.wide > 0 && s.chance(st.wide, 8) { ok[s.below(ok.len())] } else { ok[0] }
}

pub fn write(d: &Doc, s: &mut Src, st: Style, o: &mut Vec<u8>) {
    match d {
        Doc::Nil => o.push(0xc0),
        Doc::Bool(b) => o.push(0xc2 + *b as u8),
        Doc::F32(b) => {
            o.push(0xca);
            o.extend(b.to_be_bytes());
        }
        Doc::F64(b) => {
            o.push(0xcb);
            o.extend(b.to_be_bytes());
        }
        Doc::Int(n) => {
            let n = *n;
            // 0 fixint, 1..=4 unsigned, 5..=8 signed
            let mut ok = vec![];
            if (-32..128).contains(&n) {
                ok.push(0);
            }
            for k in 0..4 {
                if n >= 0 && n < 1i128 << (8 << k) {
                    ok.push(1 + k);
                }
            }
            for k in 0..4 {
                let half = 1i128 << ((8 << k) - 1);
                if (n < 0 || st.signed) && n >= -half && n < half {
                    ok.push(5 + k);
                }
            }
            let f = if st.wide > 0 && s.chance(st.wide, 8) { ok[s.below(ok.len())] } else { ok[0] };
            if f == 0 {
                o.push(n as u8);
            } else {
                let k = (f - 1) % 4;
                o.push(if f < 5 { 0xcc } else { 0xd0 } + k as u8);
                o.extend(&(n as u64).to_be_bytes()[8 - (1 << k)..]);
            }
        }
        Doc::Str(b) => {
            let n = b.len();
            match wider(s, st, &mut |i| n < [32, 256, 65536, usize::MAX][i]) {
                0 => o.push(0xa0 | n as u8),
                i => head(o, 0xd9 + (i - 1) as u8, n, 1 << (i - 1)),
            }
            o.extend(b);
        }
        Doc::Bin(b) => {
            let n = b.len();
            let i = wider(s, st, &mut |i| i < 3 && n < [256, 65536, usize::MAX][i]);
            head(o, 0xc4 + i as u8, n, 1 << i);
            o.extend(b);
        }
        Doc::Ext(t, b) => {
            let n = b.len();
            if let (Some(k), true) = ([1, 2, 4, 8, 16].iter().position(|x| *x == n), st.wide == 0 || s.bool()) {
                o.push(0xd4 + k as u8);
            } else {
                let i = wider(s, st, &mut |i| i < 3 && n < [256, 65536, usize::MAX][i]);
                head(o, 0xc7 + i as u8, n, 1 << i);
            }
            o.push(*t as u8);
            o.extend(b);
        }
        Doc::Arr(a) => {
            match wider(s, st, &mut |i| i < 3 && a.len() < [16, 65536, usize::MAX][i]) {
                0 => o.push(0x90 | a.len() as u8),
                i => head(o, 0xdb + i as u8, a.len(), 2 * i),
            }
            for x in a {
                write(x, s, st, o);
            }
        }
        Doc::Map(m) => {
            match wider(s, st, &mut |i| i < 3 && m.len() < [16, 65536, usize::MAX][i]) {
                0 => o.push(0x80 | m.len() as u8),
                i => head(o, 0xdd + i as u8, m.len(), 2 * i),
            }
            for (k, x) in m {
                write(k, s, st, o);
                write(x, s, st, o);
            }
        }
        Doc::Deep => o.extend(std::iter::repeat_n(0x91, 500).chain([0xc0])),
    }
}

fn head(o: &mut Vec<u8>, h: u8, n: usize, width: usize) {
    o.push(h);
    o.extend(&(n as u64).to_be_bytes()[8 - width..]);
}

/// Lengths around the limits of the formats.
pub fn length(s: &mut Src, big: bool) -> usize {
    match s.below(if big { 40 } else { 34 }) {
        0..=25 => s.below(8),
        26..=29 => s.range(14, 40),
        30..=33 => *s.pick(&[15, 16, 31, 32, 33, 127, 128, 255, 256, 257]),
        34..=38 => s.range(250, 400),
        _ => *s.pick(&[65534, 65535, 65536, 65537, 70000]),
    }
}

pub fn bytes(s: &mut Src, n: usize) -> Vec<u8> {
    let a = s.draw(256) as u8;
    (0..n).map(|i| if i < 6 { s.draw(256) as u8 } else { a.wrapping_add(i as u8) }).collect()
}

pub fn any(s: &mut Src, depth: usize) -> Doc {
    match s.below(if depth == 0 { 12 } else { 17 }) {
        0 => Doc::Nil,
        1 => Doc::Bool(s.bool()),
        2 | 3 => Doc::Int(s.uint(64) as i128),
        4 | 5 => Doc::Int(s.int(64)),
        6 => Doc::F32(s.f32(false).to_bits()),
        7 => Doc::F64(s.f64(false).to_bits()),
        8 => {
            let n = length(s, depth > 1);
            Doc::Bin(bytes(s, n))
        }
        9 => {
            let n = if s.bool() { *s.pick(&[1, 2, 4, 8, 16, 0, 3]) } else { length(s, depth > 1) };
            Doc::Ext(s.draw(256) as i8, bytes(s, n))
        }
        10 | 11 => Doc::Str(text(s, depth > 1).into_bytes()),
        12..=15 if depth > 1 && s.chance(1, 60) => {
            // more than 16 bits can count
            let n = *s.pick(&[65535, 65536, 65537, 70000]);
            let x = if s.bool() { Doc::Nil } else { Doc::Int(s.int(16)) };
            if s.bool() { Doc::Arr(vec![x; n]) } else { Doc::Map(vec![(x, Doc::Bool(true)); n]) }
        }
        12 | 13 => {
            let n = if s.chance(1, 20) { length(s, false) } else { s.below(4) };
            Doc::Arr((0..n).map(|_| any(s, depth - 1)).collect())
        }
        14 | 15 => {
            let n = if s.chance(1, 20) { length(s, false) } else { s.below(4) };
            Doc::Map((0..n).map(|_| (any(s, depth - 1), any(s, depth - 1))).collect())
        }
        _ => {
            if s.chance(1, 6) {
                Doc::Deep
            } else {
                Doc::Arr(vec![any(s, depth - 1)])
            }
        }
    }
}

/// A string whose length in bytes is near a format's limit, now and then.
pub fn text(s: &mut Src, big: bool) -> String {
    if s.chance(3, 4) {
        return s.string(12);
    }
    let n = length(s, big);
    let mut x = s.string(4);
    while x.len() > n {
        x.pop();
    }
    while x.len() < n {
        x.push((b'a' + (x.len() % 26) as u8) as char);
    }
    x
}
