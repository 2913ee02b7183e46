//! An independent JSON reader (RFC 8259, strict) and writer (in many spellings).
use vpcore::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Null,
    Bool(bool),
    /// the token itself
    Num(String),
    Str(String),
    Arr(Vec<Doc>),
    Obj(Vec<(String, Doc)>),
}

impl Doc {
    pub fn depth(&self) -> usize {
        match self {
            Doc::Arr(a) => 1 + a.iter().map(|x| x.depth()).max().unwrap_or(0),
            Doc::Obj(o) => 1 + o.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

pub struct P<'a> {
    b: &'a [u8],
    i: usize,
}

/// None: not one well-formed JSON document. (Lone surrogates count as malformed: no string can hold them.)
pub fn parse(b: &[u8]) -> Option<Doc> {
    std::str::from_utf8(b).ok()?;
    let mut p = P { b, i: 0 };
    p.ws();
    let d = p.value(0)?;
    p.ws();
    if p.i == b.len() { Some(d) } else { None }
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn word(&mut self, w: &str) -> Option<()> {
        for c in w.bytes() {
            self.eat(c)?;
        }
        Some(())
    }
    fn value(&mut self, d: usize) -> Option<Doc> {
        if d > 5000 {
            return None;
        }
        match self.peek()? {
            b'n' => self.word("null").map(|_| Doc::Null),
            b't' => self.word("true").map(|_| Doc::Bool(true)),
            b'f' => self.word("false").map(|_| Doc::Bool(false)),
            b'"' => self.string().map(Doc::Str),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek()? == b']' {
                    self.i += 1;
                    return Some(Doc::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(d + 1)?);
                    self.ws();
                    if self.peek()? == b']' {
                        self.i += 1;
                        return Some(Doc::Arr(v));
                    }
                    self.eat(b',')?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Some(Doc::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    v.push((k, self.value(d + 1)?));
                    self.ws();
                    if self.peek()? == b'}' {
                        self.i += 1;
                        return Some(Doc::Obj(v));
                    }
                    self.eat(b',')?;
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                let _ = self.eat(b'-');
                match self.peek()? {
                    b'0' => self.i += 1,
                    b'1'..=b'9' => self.digits()?,
                    _ => return None,
                }
                if self.eat(b'.').is_some() {
                    self.digits()?;
                }
                if matches!(self.peek(), Some(b'e' | b'E')) {
                    self.i += 1;
                    if matches!(self.peek(), Some(b'+' | b'-')) {
                        self.i += 1;
                    }
                    self.digits()?;
                }
                Some(Doc::Num(String::from_utf8(self.b[st..self.i].to_vec()).unwrap()))
            }
            _ => None,
        }
    }
    fn digits(&mut self) -> Option<()> {
        let st = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if self.i > st { Some(()) } else { None }
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                0..=0x1f => return None,
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return None;
                                }
                                char::from_u32(0x10000 + (a - 0xd800) * 0x400 + (b - 0xdc00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
    fn hex(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + (self.peek()? as char).to_digit(16)?;
            self.i += 1;
        }
        Some(v)
    }
}

/// The decimal digits of an integral number token, without leading zeros, and its sign.
pub fn integral(tok: &str) -> Option<(bool, String)> {
    let (neg, t) = match tok.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, tok),
    };
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, "0"),
    };
    let (w, f) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    let all: Vec<u8> = w.bytes().chain(f.bytes()).collect();
    if all.iter().all(|c| *c == b'0') {
        return Some((neg, "0".into()));
    }
    let (eneg, edigits) = match e.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, e.strip_prefix('+').unwrap_or(e)),
    };
    let edigits = edigits.trim_start_matches('0');
    if edigits.len() > 6 {
        // far beyond anything (or far below one)
        return if eneg { None } else { Some((neg, "9".repeat(60))) };
    }
    let e: i64 = if edigits.is_empty() { 0 } else { edigits.parse().unwrap() };
    let point = w.len() as i64 + if eneg { -e } else { e };
    // all[..point] is the whole part
    let mut whole = String::new();
    for i in 0..point.max(0).min(all.len() as i64 + 60) {
        whole.push(*all.get(i as usize).unwrap_or(&b'0') as char);
    }
    for (i, c) in all.iter().enumerate() {
        if i as i64 >= point && *c != b'0' {
            return None;
        }
    }
    let w = whole.trim_start_matches('0');
    Some((neg, if w.is_empty() { "0".into() } else { w.into() }))
}

// ------------------------------------------------------------------ writing

#[derive(Clone, Copy)]
pub struct Style {
    /// chance (of 8) of whitespace at each place
    pub ws: u64,
    /// chance (of 16) of escaping a character that needs no escape
    pub esc: u64,
    pub shuffle: bool,
    pub nums: bool,
}
impl Style {
    pub fn pick(s: &mut Src) -> Style {
        match s.below(3) {
            0 => Style { ws: 0, esc: 0, shuffle: false, nums: false },
            1 => Style { ws: 1, esc: 1, shuffle: true, nums: true },
            _ => Style { ws: s.below(8) as u64, esc: s.below(17) as u64, shuffle: s.bool(), nums: s.bool() },
        }
    }
}

pub fn write(d: &Doc, s: &mut Src, st: Style) -> String {
    let mut o = String::new();
    ws(&mut o, s, st);
    w(d, &mut o, s, st);
    ws(&mut o, s, st);
    o
}

fn ws(o: &mut String, s: &mut Src, st: Style) {
    if st.ws > 0 && s.chance(st.ws, 8) {
        for _ in 0..s.range(1, 3) {
            o.push(*s.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn w(d: &Doc, o: &mut String, s: &mut Src, st: Style) {
    match d {
        Doc::Null => o.push_str("null"),
        Doc::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Doc::Num(t) => {
            if st.nums {
                o.push_str(&respell(t, s))
            } else {
                o.push_str(t)
            }
        }
        Doc::Str(x) => string(x, o, s, st),
        Doc::Arr(a) => {
            o.push('[');
            ws(o, s, st);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(o, s, st);
                }
                w(x, o, s, st);
                ws(o, s, st);
            }
            o.push(']');
        }
        Doc::Obj(a) => {
            o.push('{');
            ws(o, s, st);
            let mut order: Vec<usize> = (0..a.len()).collect();
            if st.shuffle {
                s.shuffle(&mut order);
            }
            for (n, i) in order.into_iter().enumerate() {
                if n > 0 {
                    o.push(',');
                    ws(o, s, st);
                }
                string(&a[i].0, o, s, st);
                ws(o, s, st);
                o.push(':');
                ws(o, s, st);
                w(&a[i].1, o, s, st);
                ws(o, s, st);
            }
            o.push('}');
        }
    }
}

fn string(x: &str, o: &mut String, s: &mut Src, st: Style) {
    o.push('"');
    for c in x.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || (st.esc > 0 && s.chance(st.esc, 16)) {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(e) if !(st.esc > 0 && s.chance(1, 3)) => {
                    o.push('\\');
                    o.push(e);
                }
                _ => {
                    let up = s.bool();
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        if up { o.push_str(&format!("\\u{u:04X}")) } else { o.push_str(&format!("\\u{u:04x}")) }
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
}

/// Another spelling of exactly the same number.
pub fn respell(t: &str, s: &mut Src) -> String {
    let (sign, rest) = match t.strip_prefix('-') {
        Some(r) => ("-", r),
        None => ("", t),
    };
    let (m, e) = match rest.find(['e', 'E']) {
        Some(i) => (&rest[..i], rest[i + 1..].parse::<i64>().unwrap_or(0)),
        None => (rest, 0),
    };
    let (w, f) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    let mk = |w: &str, f: &str, e: i64, s: &mut Src| -> String {
        let w = {
            let x = w.trim_start_matches('0');
            if x.is_empty() { "0" } else { x }
        };
        let mut o = format!("{sign}{w}");
        if !f.is_empty() {
            o.push('.');
            o.push_str(f);
        }
        if e != 0 || s.chance(1, 4) {
            o.push(if s.bool() { 'E' } else { 'e' });
            if e >= 0 && s.bool() {
                o.push('+');
            }
            if s.chance(1, 4) {
                // leading zeros are fine in an exponent
                let (sg, a) = if e < 0 { ("-", -e) } else { ("", e) };
                o.push_str(&format!("{sg}{}{a}", if o.ends_with('+') || e < 0 { "0" } else { "00" }));
            } else {
                o.push_str(&e.to_string());
            }
        }
        o
    };
    match s.below(4) {
        0 => t.to_string(),
        1 => {
            // trailing zeros in the fraction
            let f2 = format!("{f}{}", "0".repeat(s.range(1, 3)));
            mk(w, &f2, e, s)
        }
        2 => {
            // move the point left
            let k = s.range(0, w.len().min(20));
            let (a, b) = w.split_at(w.len() - k);
            mk(a, &format!("{b}{f}"), e + k as i64, s)
        }
        _ => {
            // move the point right
            let k = s.range(0, 4);
            let mut ff = f.to_string();
            while ff.len() < k {
                ff.push('0');
            }
            let w2 = format!("{w}{}", &ff[..k]);
            mk(&w2, &ff[k..].to_string(), e - k as i64, s)
        }
    }
}

/// Any JSON value.
pub fn any(s: &mut Src, depth: usize) -> Doc {
    match s.below(if depth == 0 { 5 } else { 7 }) {
        0 => Doc::Null,
        1 => Doc::Bool(s.bool()),
        2 => Doc::Num(s.int(64).to_string()),
        3 => Doc::Str(s.string(8)),
        4 => {
            let f = s.f64(true);
            Doc::Num(if s.bool() { format!("{f}") } else { format!("{f:e}") })
        }
        5 => {
            let mut v = vec![];
            while s.more(v.len(), 4, 2, 3) {
                v.push(any(s, depth - 1));
            }
            Doc::Arr(v)
        }
        _ => {
            let mut v: Vec<(String, Doc)> = vec![];
            let mut n = 0;
            while s.more(n, 4, 2, 3) {
                n += 1;
                let k = s.string(5);
                if !v.iter().any(|x| x.0 == k) {
                    let d = any(s, depth - 1);
                    v.push((k, d));
                }
            }
            Doc::Obj(v)
        }
    }
}
