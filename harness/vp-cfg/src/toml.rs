//! T01, T02.
use crate::api::*;
use corpus::*;
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail};

/// A TOML value, as plain data.
#[derive(Clone, Debug, PartialEq)]
pub enum Tv {
    Bool(bool),
    Int(i64),
    Float(u64),
    Str(String),
    Date(String),
    Arr(Vec<Tv>),
    Tab(Vec<(String, Tv)>),
}
use Tv::*;

impl Tv {
    fn kind(&self) -> &'static str {
        match self {
            Bool(_) => "bool",
            Int(_) => "int",
            Float(_) => "float",
            Str(_) => "str",
            Date(_) => "date",
            Arr(_) => "array",
            Tab(_) => "table",
        }
    }
    fn sorted(&self) -> Tv {
        match self {
            Arr(a) => Arr(a.iter().map(|x| x.sorted()).collect()),
            Tab(t) => {
                let mut t: Vec<_> = t.iter().map(|(k, x)| (k.clone(), x.sorted())).collect();
                t.sort_by(|a, b| a.0.cmp(&b.0));
                Tab(t)
            }
            Float(f) if f64::from_bits(*f).is_nan() => Float(f64::NAN.to_bits()),
            Date(_) => Date(String::new()),
            o => o.clone(),
        }
    }
    fn size(&self) -> usize {
        1 + match self {
            Arr(a) => a.iter().map(|x| x.size()).sum::<usize>(),
            Tab(t) => t.iter().map(|x| x.1.size()).sum::<usize>(),
            _ => 0,
        }
    }
}

// ------------------------------------------------------------------ reading

pub fn read(x: &str) -> Option<Tv> {
    let d: toml_edit::DocumentMut = x.parse().ok()?;
    Some(table(d.as_table()))
}
fn table(t: &dyn toml_edit::TableLike) -> Tv {
    Tab(t.iter().filter(|(_, i)| !i.is_none()).map(|(k, i)| (k.to_string(), item(i))).collect())
}
fn item(i: &toml_edit::Item) -> Tv {
    match i {
        toml_edit::Item::Value(v) => value(v),
        toml_edit::Item::Table(t) => table(t),
        toml_edit::Item::ArrayOfTables(a) => Arr(a.iter().map(|t| table(t)).collect()),
        toml_edit::Item::None => unreachable!(),
    }
}
fn value(v: &toml_edit::Value) -> Tv {
    use toml_edit::Value as W;
    match v {
        W::String(s) => Str(s.value().clone()),
        W::Integer(i) => Int(*i.value()),
        W::Float(f) => Float(f.value().to_bits()),
        W::Boolean(b) => Bool(*b.value()),
        W::Datetime(d) => Date(d.value().to_string()),
        W::Array(a) => Arr(a.iter().map(value).collect()),
        W::InlineTable(t) => table(t),
    }
}

// ------------------------------------------------------------------ what a type takes

fn supported(t: T) -> bool {
    all(t, &|t| match &t.k {
        K::Sc(Sk::Bool | Sk::F32 | Sk::F64 | Sk::Ip(_)) => true,
        K::Sc(Sk::UInt(8 | 16 | 32 | 64, false) | Sk::Int(8 | 16 | 32 | 64, false)) => true,
        K::Sc(Sk::Str) => t.name != "&str",
        K::St(_, f) => f.iter().all(|f| f.rename.is_none()) && f.len() <= 64,
        K::En(_, vs) => vs.iter().all(|v| v.fields.iter().all(|f| f.rename.is_none())),
        K::List(_) | K::Opt(_) => true,
        K::Map(_, k, _) => matches!(k().name, "String" | "Cow<str>"),
        _ => false,
    })
}
/// What a document as a whole can denote.
pub fn root(t: T) -> bool {
    match &t.k {
        K::St(..) | K::En(..) | K::Map(..) => true,
        K::Opt(e) => root(e()),
        _ => false,
    }
}
thread_local! {
    static GOOD: Vec<usize> = (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); supported(t) && root(t) }).collect();
    static RICH: Vec<usize> = (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); supported(t) && root(t) && t.name.starts_with("Tm") }).collect();
}
fn pick_good(s: &mut Src) -> usize {
    if s.chance(1, 3) { pick(&RICH, s) } else { pick(&GOOD, s) }
}

fn tabish(t: T) -> bool {
    match &t.k {
        K::St(..) | K::En(..) | K::Map(..) => true,
        K::Opt(e) => tabish(e()),
        _ => false,
    }
}

/// A document for the value, None if TOML has none. Absent options have no key.
pub fn doc_of(t: T, v: &V, s: &mut Src) -> Option<Tv> {
    Some(match (&t.k, v) {
        (_, V::B(b)) => Bool(*b),
        (_, V::U(n)) => Int(i64::try_from(*n).ok()?),
        (_, V::I(n)) => Int(i64::try_from(*n).ok()?),
        (_, V::F32(b)) => Float((f32::from_bits(*b) as f64).to_bits()),
        (_, V::F64(b)) => Float(*b),
        (_, V::S(x)) => Str(x.clone()),
        (K::Opt(e), V::O(Some(x))) => doc_of(e(), x, s)?,
        (K::Opt(_), _) => return None,
        (K::List(e), V::L(x)) => Arr(x.iter().map(|x| doc_of(e(), x, s)).collect::<Option<_>>()?),
        (K::Map(_, _, e), V::M(m)) => Tab(m.iter().map(|(k, x)| Some((k.s().to_string(), doc_of(e(), x, s)?))).collect::<Option<_>>()?),
        (K::St(k, fs), V::St(x)) => {
            if *k == Stk::TupleStruct && fs.len() == 1 && s.bool() {
                if let Some(d) = doc_of(fs[0].t(), &x[0], s) {
                    if !matches!(d, Tab(_)) {
                        return Some(d);
                    }
                }
            }
            Tab(fields(fs, x, s, &|_, f| f.name.to_string())?)
        }
        (K::En(_, vs), V::En(i, x)) => {
            let v = &vs[*i];
            match v.kind {
                Vk::Unit => {
                    if s.bool() { Str(v.name.to_string()) } else { Tab(vec![(v.name.to_string(), Tab(vec![]))]) }
                }
                Vk::Named => Tab(vec![(v.name.to_string(), Tab(fields(&v.fields, x, s, &|_, f| f.name.to_string())?))]),
                Vk::Tuple => {
                    if v.fields.len() == 1 && s.bool() {
                        if let Some(d) = doc_of(v.fields[0].t(), &x[0], s) {
                            if !matches!(d, Tab(_)) {
                                return Some(Tab(vec![(v.name.to_string(), d)]));
                            }
                        }
                    }
                    Tab(vec![(v.name.to_string(), Tab(fields(&v.fields, x, s, &|i, _| i.to_string())?))])
                }
            }
        }
        _ => return None,
    })
}
fn fields(fs: &[Fd], x: &[V], s: &mut Src, key: &dyn Fn(usize, &Fd) -> String) -> Option<Vec<(String, Tv)>> {
    let mut out = vec![];
    for (i, (f, x)) in fs.iter().zip(x).enumerate() {
        if *x == V::none() {
            continue;
        }
        out.push((key(i, f), doc_of(f.t(), x, s)?));
    }
    Some(out)
}

fn meaning(t: T, d: &Tv) -> Out {
    match (&t.k, d) {
        (K::Sc(Sk::Bool), Bool(b)) => Out::Must(V::B(*b)),
        (K::Sc(Sk::UInt(b, false)), Int(n)) => {
            let n = *n as i128;
            if n >= 0 && n < 1i128 << b { Out::Must(V::U(n as u128)) } else { Out::Err("range") }
        }
        (K::Sc(Sk::Int(b, false)), Int(n)) => {
            let n = *n as i128;
            if n >= -(1i128 << (b - 1)) && n < 1i128 << (b - 1) { Out::Must(V::I(n)) } else { Out::Err("range") }
        }
        (K::Sc(Sk::UInt(b, false)), Float(f)) => {
            let f = f64::from_bits(*f);
            if f.fract() == 0.0 && f >= 0.0 && f < 2f64.powi(*b as i32) { Out::May(V::U(f as u128)) } else { Out::Err("float") }
        }
        (K::Sc(Sk::Int(b, false)), Float(f)) => {
            let f = f64::from_bits(*f);
            let m = 2f64.powi(*b as i32 - 1);
            if f.fract() == 0.0 && f >= -m && f < m { Out::May(V::I(f as i128)) } else { Out::Err("float") }
        }
        (K::Sc(Sk::F64), Float(f)) => Out::Must(V::F64(*f)),
        (K::Sc(Sk::F32), Float(f)) => {
            let f = f64::from_bits(*f);
            if f.is_finite() && (f as f32).is_infinite() { Out::Err("range") } else { Out::Must(V::f32(f as f32)) }
        }
        (K::Sc(Sk::F64), Int(n)) => Out::May(V::f64(*n as f64)),
        (K::Sc(Sk::F32), Int(n)) => Out::May(V::f32(*n as f32)),
        (K::Sc(Sk::Str), Str(x)) => Out::Must(V::S(x.clone())),
        (K::Sc(Sk::Ip(w)), Str(x)) => {
            use std::net::*;
            let p = match w {
                4 => x.parse::<Ipv4Addr>().ok().map(|x| x.to_string()),
                6 => x.parse::<Ipv6Addr>().ok().map(|x| x.to_string()),
                0 => x.parse::<IpAddr>().ok().map(|x| x.to_string()),
                _ => x.parse::<SocketAddr>().ok().map(|x| x.to_string()),
            };
            match p {
                Some(x) => Out::Must(V::S(x)),
                None => Out::Err("address"),
            }
        }
        (K::Sc(_), _) => Out::Err("type"),
        (K::List(e), Arr(a)) => seq(a.iter().map(|x| meaning(e(), x)).collect(), V::L),
        (K::Map(_, _, e), Tab(m)) => seq(m.iter().map(|(_, x)| meaning(e(), x)).collect(), |v| {
            let mut m: Vec<(V, V)> = m.iter().map(|(k, _)| V::S(k.clone())).zip(v).collect();
            m.sort();
            V::M(m)
        }),
        (K::List(_) | K::Map(..), _) => Out::Err("type"),
        (K::Opt(e), d) => match meaning(e(), d) {
            Out::Must(v) => Out::Must(V::some(v)),
            Out::May(v) => Out::May(V::some(v)),
            o => o,
        },
        (K::St(k, fs), d) => {
            let o = match d {
                Tab(m) => {
                    if *k == Stk::TupleStruct && fs.len() == 1 && !m.iter().any(|(k, _)| k == fs[0].name) && (tabish(fs[0].t()) || opt(fs[0].t())) {
                        return Out::Any;
                    }
                    by_name(t, fs, m, &|_, f| f.name.to_string(), V::St)
                }
                d if fs.len() == 1 && *k == Stk::TupleStruct => match meaning(fs[0].t(), d) {
                    Out::Must(v) => Out::Must(V::St(vec![v])),
                    Out::May(v) => Out::May(V::St(vec![v])),
                    o => o,
                },
                // not promised, not ruled out
                _ if fs.len() == 1 => return Out::Any,
                Arr(_) if matches!(k, Stk::Tuple | Stk::TupleStruct) => return Out::Any,
                _ => return Out::Err("type"),
            };
            invariant(t, o)
        }
        (K::En(_, vs), d) => {
            let o = match d {
                Str(n) => match vs.iter().position(|v| v.name == n) {
                    None => Out::Err("variant"),
                    Some(i) if vs[i].kind == Vk::Unit => Out::Must(V::En(i, vec![])),
                    Some(i) if vs[i].fields.iter().all(|f| opt(f.t()) || f.t().size == 0) => return Out::Any,
                    Some(_) => return Out::Err("name-only"),
                },
                Tab(m) if m.len() == 1 => {
                    let (n, d) = &m[0];
                    let Some(i) = vs.iter().position(|v| v.name == n) else { return Out::Err("variant") };
                    let v = &vs[i];
                    match (v.kind, d) {
                        (Vk::Unit, Tab(m)) if m.is_empty() => Out::Must(V::En(i, vec![])),
                        (Vk::Unit, _) => return Out::Any,
                        (Vk::Named, Tab(m)) => by_name(t, &v.fields, m, &|_, f| f.name.to_string(), |x| V::En(i, x)),
                        (Vk::Tuple, Tab(m)) => {
                            if v.fields.len() == 1 && !m.iter().any(|(k, _)| k == "0") && (tabish(v.fields[0].t()) || opt(v.fields[0].t())) {
                                return Out::Any;
                            }
                            by_name(t, &v.fields, m, &|i, _| i.to_string(), |x| V::En(i, x))
                        }
                        (Vk::Tuple, d) if v.fields.len() == 1 => match meaning(v.fields[0].t(), d) {
                            Out::Must(x) => Out::Must(V::En(i, vec![x])),
                            Out::May(x) => Out::May(V::En(i, vec![x])),
                            o => o,
                        },
                        (Vk::Tuple, Arr(_)) => return Out::Any,
                        _ if v.fields.len() <= 1 => return Out::Any,
                        _ => return Out::Err("type"),
                    }
                }
                Tab(_) => return Out::Err("variant"),
                _ => return Out::Err("type"),
            };
            invariant(t, o)
        }
        _ => Out::Any,
    }
}
fn opt(t: T) -> bool {
    matches!(t.k, K::Opt(_))
}
fn invariant(t: T, o: Out) -> Out {
    match (&o, t.invariant) {
        (Out::Must(v) | Out::May(v), Some(i)) if !i(v) => Out::Any,
        _ => o,
    }
}
fn seq(x: Vec<Out>, f: impl FnOnce(Vec<V>) -> V) -> Out {
    let (mut may, mut any, mut err, mut vs) = (false, false, None, vec![]);
    for o in x {
        match o {
            Out::Must(v) => vs.push(v),
            Out::May(v) => {
                vs.push(v);
                may = true;
            }
            Out::Any => any = true,
            Out::Err(e) => err = Some(e),
        }
    }
    match err {
        Some(e) => Out::Err(e),
        None if any => Out::Any,
        None if may => Out::May(f(vs)),
        None => Out::Must(f(vs)),
    }
}
fn by_name(t: T, fs: &[Fd], m: &[(String, Tv)], key: &dyn Fn(usize, &Fd) -> String, f: impl FnOnce(Vec<V>) -> V) -> Out {
    let mut outs = vec![];
    for (i, fd) in fs.iter().enumerate() {
        let k = key(i, fd);
        outs.push(match m.iter().find(|(n, _)| *n == k) {
            Some((_, d)) => meaning(fd.t(), d),
            None if opt(fd.t()) && fd.default_v.is_none() && !t.container_default => Out::Must(V::none()),
            None if fd.default_v.is_some() || t.container_default || fd.t().size == 0 => Out::Any,
            None => Out::Err("missing"),
        });
    }
    let unknown = m.iter().any(|(n, _)| !fs.iter().enumerate().any(|(i, f)| key(i, f) == *n));
    match seq(outs, f) {
        Out::Must(v) if unknown => {
            if t.deny_unknown { Out::Any } else { Out::May(v) }
        }
        Out::May(_) if unknown && t.deny_unknown => Out::Any,
        o => o,
    }
}

// ------------------------------------------------------------------ writing

fn bare(k: &str) -> bool {
    !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-')
}
fn key(k: &str, s: &mut Src) -> String {
    let lit = !k.contains('\'') && !k.chars().any(|c| (c.is_control() && c != '\t') || c == '\u{7f}');
    match s.below(4) {
        0 | 1 if bare(k) => k.to_string(),
        2 if lit => format!("'{k}'"),
        _ => basic(k, s),
    }
}
fn ws(s: &mut Src) -> &'static str {
    *s.pick(&["", " ", "", "  ", "\t", " \t "])
}
fn path(p: &[String], s: &mut Src) -> String {
    let mut o = String::new();
    for (i, k) in p.iter().enumerate() {
        if i > 0 {
            o.push_str(ws(s));
            o.push('.');
            o.push_str(ws(s));
        }
        o.push_str(&key(k, s));
    }
    o
}
fn comment(s: &mut Src) -> &'static str {
    *s.pick(&["", "", "", "# comment", "#", "# [not.a.table]", "# x = 1 \"'", "# \u{e9}\t\u{1F600}"])
}
fn nl(s: &mut Src) -> &'static str {
    if s.chance(1, 6) { "\r\n" } else { "\n" }
}
fn eol(s: &mut Src) -> String {
    let mut o = String::from(ws(s));
    o.push_str(comment(s));
    o.push_str(nl(s));
    while s.chance(1, 8) {
        o.push_str(ws(s));
        o.push_str(comment(s));
        o.push_str(nl(s));
    }
    o
}
fn esc(c: char, s: &mut Src) -> String {
    let short = match c {
        '"' => Some("\\\""),
        '\\' => Some("\\\\"),
        '\u{8}' => Some("\\b"),
        '\t' => Some("\\t"),
        '\n' => Some("\\n"),
        '\u{c}' => Some("\\f"),
        '\r' => Some("\\r"),
        _ => None,
    };
    match short {
        Some(x) if s.chance(7, 8) => x.to_string(),
        _ if (c as u32) < 0x10000 && s.chance(2, 3) => {
            if s.bool() { format!("\\u{:04X}", c as u32) } else { format!("\\u{:04x}", c as u32) }
        }
        _ => format!("\\U{:08X}", c as u32),
    }
}
fn basic(x: &str, s: &mut Src) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        if c == '"' || c == '\\' || (c.is_ascii_control() && c != '\t') || c == '\u{7f}' || s.chance(1, 12) {
            o.push_str(&esc(c, s));
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}
fn string(x: &str, s: &mut Src) -> String {
    let ctl = |c: char| (c.is_ascii_control() && c != '\t' && c != '\n') || c == '\u{7f}';
    match s.below(5) {
        1 if !x.contains('\'') && !x.contains('\n') && !x.chars().any(ctl) => format!("'{x}'"),
        2 if !x.contains("''") && !x.ends_with('\'') && !x.chars().any(ctl) => {
            let first = if x.starts_with('\n') || s.bool() { "\n" } else { "" };
            format!("'''{first}{x}'''")
        }
        3 => {
            let mut o = String::from("\"\"\"");
            if x.starts_with('\n') || s.bool() {
                o.push_str(nl(s));
            }
            let cs: Vec<char> = x.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                let c = cs[i];
                if c == '"' {
                    // up to two in a row need no escape, not next to the closing ones either
                    let alone = i + 1 < cs.len() && cs[i + 1] != '"' && !o.ends_with('"');
                    if alone && s.bool() { o.push('"') } else { o.push_str("\\\"") }
                } else if c == '\\' || ctl(c) || s.chance(1, 14) {
                    o.push_str(&esc(c, s));
                } else {
                    if !c.is_whitespace() && s.chance(1, 10) {
                        // a line that continues
                        o.push_str("\\");
                        o.push_str(nl(s));
                        o.push_str(*s.pick(&["", "   ", "\t\n  ", "\n\n"]));
                    }
                    o.push(c);
                }
                i += 1;
            }
            if s.chance(1, 6) {
                o.push_str("\\\n  ");
            }
            o.push_str("\"\"\"");
            o
        }
        _ => basic(x, s),
    }
}
fn under(digits: &str, s: &mut Src) -> String {
    let mut o = String::new();
    for (i, c) in digits.chars().enumerate() {
        if i > 0 && s.chance(1, 6) {
            o.push('_');
        }
        o.push(c);
    }
    o
}
fn int(n: i64, s: &mut Src) -> String {
    let how = s.below(6);
    if n >= 0 && (1..=3).contains(&how) {
        let (p, d) = match how {
            1 => ("0x", if s.bool() { format!("{n:x}") } else { format!("{n:X}") }),
            2 => ("0o", format!("{n:o}")),
            _ => ("0b", format!("{n:b}")),
        };
        let d = if s.chance(1, 4) && d.len() < 12 { format!("00{d}") } else { d };
        return format!("{p}{}", under(&d, s));
    }
    let d = under(&n.unsigned_abs().to_string(), s);
    if n < 0 {
        format!("-{d}")
    } else if s.chance(1, 5) {
        format!("+{d}")
    } else {
        d
    }
}
fn float(b: u64, s: &mut Src) -> String {
    let f = f64::from_bits(b);
    if f.is_nan() {
        return s.pick(&["nan", "+nan", "-nan"]).to_string();
    }
    if f.is_infinite() {
        return if f < 0.0 { "-inf" } else { s.pick(&["inf", "+inf"]) }.to_string();
    }
    let x = f.abs();
    let mut d = match s.below(3) {
        0 => format!("{x:?}"),
        1 => format!("{x:e}"),
        _ => format!("{x}"),
    };
    if !d.contains(['.', 'e']) {
        d.push_str(*s.pick(&[".0", "e0", ".00", "E+0", "e-0"]));
    }
    if let Some((m, e)) = d.clone().split_once('e') {
        let (sg, e) = match e.strip_prefix('-') {
            Some(e) => ("-", e),
            None => (*s.pick(&["", "+"]), e.trim_start_matches('+')),
        };
        d = format!("{}{}{sg}{}{e}", m, s.pick(&["e", "E"]), if s.chance(1, 4) { "0" } else { "" });
    }
    let sign = if f.is_sign_negative() { "-" } else if s.chance(1, 6) { "+" } else { "" };
    format!("{sign}{d}")
}
fn inline(d: &Tv, s: &mut Src) -> String {
    match d {
        Bool(b) => b.to_string(),
        Int(n) => int(*n, s),
        Float(f) => float(*f, s),
        Str(x) => string(x, s),
        Date(x) => x.clone(),
        Arr(a) => {
            let gap = |s: &mut Src| -> String {
                let mut o = ws(s).to_string();
                if s.chance(1, 6) {
                    o.push_str(comment(s));
                    o.push_str(nl(s));
                    o.push_str(ws(s));
                }
                o
            };
            let mut o = String::from("[");
            for (i, x) in a.iter().enumerate() {
                o.push_str(&gap(s));
                o.push_str(&inline(x, s));
                o.push_str(&gap(s));
                if i + 1 < a.len() || s.chance(1, 4) {
                    o.push(',');
                }
            }
            o.push_str(&gap(s));
            o.push(']');
            o
        }
        Tab(m) => {
            let mut kv = vec![];
            for (k, x) in m {
                pairs(&[k.clone()], x, s, true, &mut kv);
            }
            s.shuffle(&mut kv);
            let mut o = String::from("{");
            for (i, x) in kv.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(ws(s));
                o.push_str(x);
                o.push_str(ws(s));
            }
            if kv.is_empty() {
                o.push_str(ws(s));
            }
            o.push('}');
            o
        }
    }
}
/// `key = value`, tables dotted at times.
fn pairs(p: &[String], d: &Tv, s: &mut Src, inl: bool, out: &mut Vec<String>) {
    match d {
        Tab(m) if !m.is_empty() && s.chance(if inl { 1 } else { 2 }, 4) => {
            for (k, x) in m {
                let mut q = p.to_vec();
                q.push(k.clone());
                pairs(&q, x, s, inl, out);
            }
        }
        d => {
            let k = path(p, s);
            let (a, b) = (ws(s), ws(s));
            let v = inline(d, s);
            out.push(format!("{k}{a}={b}{v}"));
        }
    }
}
/// The lines before the first header, and blocks that may come in any order.
fn body(p: &[String], m: &[(String, Tv)], s: &mut Src) -> (String, Vec<String>) {
    let mut kv = vec![];
    let mut blocks = vec![];
    for (k, d) in m {
        let mut q = p.to_vec();
        q.push(k.clone());
        match d {
            Tab(sub) if s.bool() => {
                let (lines, bl) = body(&q, sub, s);
                if !(lines.is_empty() && !bl.is_empty() && s.bool()) {
                    blocks.push(format!("{}[{}{}{}]{}{lines}", ws(s), ws(s), path(&q, s), ws(s), eol(s)));
                }
                blocks.extend(bl);
            }
            Arr(a) if !a.is_empty() && a.iter().all(|x| matches!(x, Tab(_))) && s.chance(2, 3) => {
                let mut o = String::new();
                for x in a {
                    let Tab(sub) = x else { unreachable!() };
                    let (lines, mut bl) = body(&q, sub, s);
                    s.shuffle(&mut bl);
                    o.push_str(&format!("{}[[{}{}{}]]{}{lines}{}", ws(s), ws(s), path(&q, s), ws(s), eol(s), bl.concat()));
                }
                blocks.push(o);
            }
            d => pairs(&[k.clone()], d, s, false, &mut kv),
        }
    }
    s.shuffle(&mut kv);
    let mut lines = String::new();
    for x in kv {
        lines.push_str(ws(s));
        lines.push_str(&x);
        lines.push_str(&eol(s));
    }
    (lines, blocks)
}
pub fn write(d: &Tv, s: &mut Src) -> String {
    let Tab(m) = d else { panic!("harness: document is a table") };
    let (lines, mut bl) = body(&[], m, s);
    s.shuffle(&mut bl);
    let mut o = if s.chance(1, 6) { eol(s) } else { String::new() };
    o.push_str(&lines);
    o.push_str(&bl.concat());
    if s.chance(1, 4) {
        // the last line need not end
        while o.ends_with(['\n', '\r']) {
            o.pop();
        }
    }
    o
}

// ------------------------------------------------------------------ T01

fn value_for(t: T, s: &mut Src) -> V {
    let depth = s.range(2, 5);
    tame(t, gen_v(t, s, Opt { finite: false, max_elems: 3, depth, str_max: 10 }), s)
}
/// Most of what TOML cannot say, made sayable.
pub fn tame(t: T, v: V, s: &mut Src) -> V {
    match (&t.k, v) {
        (_, V::U(n)) if n > i64::MAX as u128 => V::U(n & i64::MAX as u128),
        (K::St(_, fs), V::St(x)) => V::St(fs.iter().zip(x).map(|(f, x)| tame(f.t(), x, s)).collect()),
        (K::En(_, vs), V::En(i, x)) => V::En(i, vs[i].fields.iter().zip(x).map(|(f, x)| tame(f.t(), x, s)).collect()),
        (K::List(e), V::L(x)) => V::L(x.into_iter().map(|x| tame(e(), x, s)).filter(|x| !none(x)).collect()),
        (K::Map(_, _, e), V::M(x)) => V::M(x.into_iter().map(|(k, x)| (k, tame(e(), x, s))).filter(|(_, x)| !none(x)).collect()),
        (K::Opt(e), V::O(Some(x))) => {
            let x = tame(e(), *x, s);
            if none(&x) { V::none() } else { V::some(x) }
        }
        (_, v) => v,
    }
}
/// Absent somewhere TOML has to have something.
fn none(v: &V) -> bool {
    *v == V::none()
}
/// No two-level absent options (nothing in TOML says which level).
pub fn plain_defaults(t: T) -> bool {
    // an absent option with a declared default may take it
    !t.any(&mut |t| match &t.k {
        K::St(_, f) => f.iter().any(|f| opt(f.t()) && (f.default_v.is_some() || t.container_default)),
        _ => false,
    })
}

fn spelled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_good(s);
    let t = (ROOTS[r].ty)();
    let v = value_for(t, s);
    let Some(d @ Tab(_)) = doc_of(t, &v, s) else {
        cx.label("no-document");
        return Ok(());
    };
    if !all_hold(t, &v) || !plain_defaults(t) {
        cx.label("set-aside");
        return Ok(());
    }
    let x = write(&d, s);
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    if d.size() > 2 {
        cx.nontrivial();
    }
    let back = read(&x);
    ensure!(back.as_ref().map(|b| b.sorted()) == Some(d.sorted()), "harness-writer", "{d:?} written as {x:?} read as {back:?}");
    match tracked(t, APIS[r].toml, &x)? {
        Ok(g) => ensure!(g.canon_nan() == v.canon_nan(), "wrong-value", "{} from {:?}: gave {}, means {}", t.name, cut(&x, 800), short(&g), short(&v)),
        Err(e) => return fail("refused", format!("{} from {:?}: means {}, refused: {}", t.name, cut(&x, 800), short(&v), cut(&e, 300))),
    }
    Ok(())
}

/// The same document spelled twice.
fn respelled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_good(s);
    let t = (ROOTS[r].ty)();
    let v = value_for(t, s);
    let Some(d @ Tab(_)) = doc_of(t, &v, s) else { return Ok(()) };
    let (x, y) = (write(&d, s), write(&d, s));
    cx.sample(|| format!("{}: {x} ---- {y}", t.name));
    cx.key(&format!("{}{x}{y}", t.name));
    if x != y && d.size() > 2 {
        cx.nontrivial();
    }
    let (a, b) = (tracked(t, APIS[r].toml, &x)?, tracked(t, APIS[r].toml, &y)?);
    match (&a, &b) {
        (Ok(a), Ok(b)) => ensure!(a.canon_nan() == b.canon_nan(), "differs", "{}: {:?} gave {}, {:?} gave {}", t.name, cut(&x, 500), short(a), cut(&y, 500), short(b)),
        (Err(_), Err(_)) => cx.label("both-refused"),
        _ => return fail("differs", format!("{}: {:?} gave {a:?}, {:?} gave {b:?}", t.name, cut(&x, 500), cut(&y, 500))),
    }
    Ok(())
}

// ------------------------------------------------------------------ T02

fn any(s: &mut Src, depth: usize) -> Tv {
    match s.weighted(&[2, 3, 2, 3, 1, 2, 2]) {
        0 => Bool(s.bool()),
        1 => Int(s.int(64) as i64),
        2 => Float(s.f64(false).to_bits()),
        3 => Str(if s.bool() { s.string(8) } else { s.pick(&["1", "true", "0.5", "::1", "127.0.0.1", "1.2.3.4:80", "", "A", "nan", "256.0.0.1", "[::1]:70000", "[::1]:1"]).to_string() }),
        4 => Date(s.pick(&["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27 00:32:00.999999-07:00"]).to_string()),
        5 => {
            let mut a = vec![];
            while depth > 0 && s.more(a.len(), 3, 2, 3) {
                a.push(any(s, depth - 1));
            }
            Arr(a)
        }
        _ => {
            let mut m: Vec<(String, Tv)> = vec![];
            while depth > 0 && s.more(m.len(), 3, 2, 3) {
                let k = if s.bool() { s.pick(&["0", "1", "a", "x", "_0"]).to_string() } else { s.string(4) };
                if !m.iter().any(|(j, _)| *j == k) {
                    m.push((k, any(s, depth - 1)));
                }
            }
            Tab(m)
        }
    }
}
fn mutate(d: &Tv, s: &mut Src) -> Tv {
    match d {
        Tab(m) if !m.is_empty() && s.chance(7, 8) => {
            let mut m = m.clone();
            let i = s.below(m.len());
            match s.below(9) {
                0 => {
                    m.remove(i);
                }
                1 => {
                    let k = match s.below(4) {
                        0 | 1 => {
                            let k = m[i].0.clone();
                            s.near_name(&k)
                        }
                        2 => i.to_string(),
                        _ => s.string(3),
                    };
                    if !m.iter().any(|(j, _)| *j == k) {
                        m[i].0 = k;
                    }
                }
                2 => {
                    let k = if s.bool() { s.string(4) } else { s.below(3).to_string() };
                    if !m.iter().any(|(j, _)| *j == k) {
                        m.push((k, any(s, 2)));
                    }
                }
                _ => m[i].1 = mutate(&m[i].1, s),
            }
            Tab(m)
        }
        Arr(a) if !a.is_empty() && s.chance(3, 4) => {
            let mut a = a.clone();
            let i = s.below(a.len());
            match s.below(5) {
                0 => {
                    a.remove(i);
                }
                1 => a.push(any(s, 2)),
                _ => a[i] = mutate(&a[i], s),
            }
            Arr(a)
        }
        Int(n) if s.chance(3, 4) => match s.below(6) {
            0 => Int(n.wrapping_neg()),
            1 => {
                let k = *s.pick(&[8u32, 16, 32, 64, 7, 15, 31, 63]);
                let e = if k == 64 { -1 } else { (1i128 << k) as i64 };
                Int(e.wrapping_add(s.below(3) as i64 - 1))
            }
            2 => Int(-((1i128 << *s.pick(&[7u32, 15, 31, 63])) + s.below(2) as i128).max(i64::MIN as i128).min(0) as i64),
            3 => Float((*n as f64).to_bits()),
            4 => Float((*n as f64 + 0.5).to_bits()),
            _ => Str(n.to_string()),
        },
        Float(f) if s.chance(3, 4) => {
            let f = f64::from_bits(*f);
            match s.below(5) {
                0 => Int(f as i64),
                1 => Float((f * 1e300).to_bits()),
                2 => Float(f64::INFINITY.to_bits()),
                3 => Float((f.trunc()).to_bits()),
                _ => Str(f.to_string()),
            }
        }
        Str(x) if s.chance(3, 4) => match s.below(5) {
            0 => Str(format!("{x} ")),
            1 => Str(x.to_lowercase()),
            2 => Arr(vec![Str(x.clone())]),
            3 => Tab(vec![(x.clone(), any(s, 1))]),
            _ => Str(x.chars().skip(1).collect()),
        },
        Bool(b) if s.chance(3, 4) => match s.below(3) {
            0 => Int(*b as i64),
            1 => Str(b.to_string()),
            _ => Float((*b as u8 as f64).to_bits()),
        },
        // the other way to write a nesting
        d if s.chance(1, 3) => match s.below(3) {
            0 => Arr(vec![d.clone()]),
            1 => Tab(vec![("0".to_string(), d.clone())]),
            _ => Tab(vec![]),
        },
        _ => any(s, 2),
    }
}

fn judge(r: usize, x: &str, cx: &mut Ctx) -> R {
    let t = (ROOTS[r].ty)();
    let d = read(x);
    let got = tracked(t, APIS[r].toml, x)?;
    let ctx = || format!("{} from {:?}", t.name, cut(x, 800));
    let Some(d) = d else {
        cx.label("malformed");
        return match got {
            Ok(v) => fail("accepts-malformed", format!("{}: not TOML, but gave {}", ctx(), short(&v))),
            Err(_) => Ok(()),
        };
    };
    match (if supported(t) { meaning(t, &d) } else { Out::Any }, got) {
        (Out::Any, _) => cx.label("unpromised"),
        (Out::Err(w), Ok(v)) => return fail(format!("accepts-mismatch:{w}"), format!("{}: must be refused ({w}), but gave {}", ctx(), short(&v))),
        (Out::Err(w), Err(_)) => cx.label(&format!("refused-{w}")),
        (Out::Must(w) | Out::May(w), Ok(v)) => {
            cx.label("value");
            ensure!(v.canon_nan() == w.canon_nan(), "wrong-value", "{}: gave {}, means {}", ctx(), short(&v), short(&w));
        }
        (Out::Must(w), Err(e)) => return fail("refused", format!("{}: means {}, refused: {}", ctx(), short(&w), cut(&e, 300))),
        (Out::May(_), Err(_)) => cx.label("lenient"),
    }
    Ok(())
}

fn any_root(s: &mut Src) -> usize {
    if s.chance(1, 10) { s.below(ROOTS.len()) } else { pick_good(s) }
}
fn some_doc(t: T, s: &mut Src) -> Tv {
    if supported(t) && root(t) {
        for _ in 0..3 {
            let v = value_for(t, s);
            if let Some(d @ Tab(_)) = doc_of(t, &v, s) {
                return d;
            }
        }
    }
    let n = s.below(3);
    Tab((0..n).map(|i| (["0", "a", "x"][i].to_string(), any(s, 2))).collect())
}

fn mutated(s: &mut Src, cx: &mut Ctx) -> R {
    let r = any_root(s);
    let t = (ROOTS[r].ty)();
    let how = s.below(10);
    let src = if how == 9 { (ROOTS[pick_good(s)].ty)() } else { t };
    let mut d = some_doc(src, s);
    if how < 6 {
        for _ in 0..s.range(1, 2) {
            d = mutate(&d, s);
            if !matches!(d, Tab(_)) {
                d = Tab(vec![(s.pick(&["0", "a", "x"]).to_string(), d)]);
            }
        }
    }
    let mut x = write(&d, s);
    if (6..9).contains(&how) {
        damage(&mut x, s);
    }
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    cx.nontrivial();
    judge(r, &x, cx)
}
const BITS: &[&str] = &["=", "[", "]", "[[", "]]", "{", "}", ",", ".", "\"", "'", "'''", "\"\"\"", "\n", "\r", "#", "_", "-", "+", "0x", "e", "1", "00", "nan", "true", "\\", "\\u", "\\uD800", "\u{7f}", "\u{0}", "\u{1}", "\u{feff}", "=1\n", "a.b=1\n", "[a]\n", "[[a]]\n", "9223372036854775808", "-9223372036854775809", "0xffffffffffffffff", "1e999", ".5", "5.", "1979-13-01"];
fn damage(x: &mut String, s: &mut Src) {
    for _ in 0..s.range(1, 3) {
        let mut i = s.below(x.len() + 1);
        while !x.is_char_boundary(i) {
            i -= 1;
        }
        match s.below(5) {
            0 => x.truncate(i),
            1 if i < x.len() => {
                x.remove(i);
            }
            2 => {
                // a line twice
                let l: Vec<String> = x.lines().map(|l| l.to_string()).collect();
                if !l.is_empty() {
                    let k = &l[s.below(l.len())];
                    x.push('\n');
                    x.push_str(k);
                }
            }
            _ => x.insert_str(i, *s.pick(BITS)),
        }
    }
}

fn soup(s: &mut Src, cx: &mut Ctx) -> R {
    let r = any_root(s);
    let t = (ROOTS[r].ty)();
    let names: Vec<&str> = match &t.k {
        K::St(_, f) => f.iter().map(|f| f.name).collect(),
        K::En(_, v) => v.iter().map(|v| v.name).collect(),
        _ => vec![],
    };
    let mut x = String::new();
    let mut n = 0;
    while s.more(n, 24, 9, 10) {
        n += 1;
        match s.below(9) {
            0 | 1 if !names.is_empty() => {
                let k = *s.pick(&names);
                x.push_str(k);
                x.push_str(*s.pick(&["=", " = ", ".", "", "]\n"]));
            }
            2 => x.push_str(*s.pick(BITS)),
            3 => {
                let d = any(s, 2);
                x.push_str(&inline(&d, s));
                x.push_str(*s.pick(&["\n", "\n", "", ","]));
            }
            4 if !names.is_empty() => {
                let k = *s.pick(&names);
                x.push_str(&if s.bool() { format!("\n[{k}]\n") } else { format!("\n[[{k}]]\n") });
            }
            5 => x.push(s.char()),
            6 => {
                let k = if s.chance(1, 1000) { 20_000 } else { s.below(40) };
                let c = *s.pick(&["[", "a.", "{a=", "[["]);
                x.push_str(&c.repeat(k));
            }
            _ => x.push_str(*s.pick(&["\n", " ", "a=1\n", "0=1\n"])),
        }
    }
    cx.sample(|| format!("{}: {}", t.name, cut(&x, 1000)));
    cx.key(&format!("{}{x}", t.name));
    if n > 1 {
        cx.nontrivial();
    }
    judge(r, &x, cx)
}

pub const T01: Prop = Prop {
    id: "T01",
    targets: &[
        Target { name: "spelled", quick: 150_000, thorough: 4_000_000, rule: "a random value of a supported type as a TOML document, written with random key, table, number, string and array styles in random order, with comments; an independent reading of the text confirms the document. Non-trivial: the document has at least two entries", f: spelled },
        Target { name: "respelled", quick: 60_000, thorough: 1_500_000, rule: "one document in two random spellings has to give the same outcome. Non-trivial: two different texts of at least two entries", f: respelled },
    ],
};
pub const T02: Prop = Prop {
    id: "T02",
    targets: &[
        Target { name: "mutated", quick: 200_000, thorough: 5_000_000, rule: "a document with entries removed, renamed, added or of another type or size, or its text damaged, or of another type, decoded under the tracking allocator; an independent reading decides whether it must be refused. Every case counts", f: mutated },
        Target { name: "soup", quick: 100_000, thorough: 3_000_000, rule: "random tokens, the type's names, values and deep nesting. Non-trivial: more than one piece", f: soup },
    ],
};
