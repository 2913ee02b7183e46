//! Y01.
use crate::api::*;
use corpus::*;
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail};
use yaml_rust2::{Yaml, YamlLoader};

pub fn supported(t: T) -> bool {
    all(t, &|t| match &t.k {
        K::Sc(Sk::UInt(64, false)) => t.name == "u64",
        K::Sc(Sk::Str) => t.name == "String",
        K::St(_, f) => f.iter().all(|f| f.rename.is_none()) && f.len() <= 64,
        _ => false,
    })
}
thread_local! {
    static GOOD: Vec<usize> = (0..ROOTS.len()).filter(|i| supported((ROOTS[*i].ty)())).collect();
    static RICH: Vec<usize> = (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); supported(t) && t.size > 32 }).collect();
}
fn pick_good(s: &mut Src) -> usize {
    if s.chance(3, 4) { pick(&RICH, s) } else { pick(&GOOD, s) }
}

/// A document's content.
#[derive(Clone, Debug, PartialEq)]
pub enum Yt {
    Int(u64),
    Str(String),
    Map(Vec<(String, Yt)>),
    /// as is
    Raw(String),
}
use Yt::*;

pub fn doc_of(t: T, v: &V) -> Yt {
    match (&t.k, v) {
        (_, V::U(n)) => Int(*n as u64),
        (_, V::S(x)) => Str(x.clone()),
        (K::St(_, fs), V::St(x)) => Map(fs.iter().zip(x).map(|(f, x)| (f.name.to_string(), doc_of(f.t(), x))).collect()),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ meaning

pub fn read(x: &str) -> Result<Vec<Yaml>, ()> {
    YamlLoader::load_from_str(x).map_err(|_| ())
}
fn meaning(t: T, y: &Yaml) -> Out {
    match (&t.k, y) {
        (K::Sc(Sk::UInt(..)), Yaml::Integer(n)) => {
            if *n >= 0 { Out::Must(V::U(*n as u128)) } else { Out::Err("range") }
        }
        (K::Sc(Sk::UInt(..)), Yaml::Real(r)) => {
            if !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()) {
                // an integer beyond i64
                match r.parse::<u64>() {
                    Ok(n) => Out::Must(V::U(n as u128)),
                    Err(_) => Out::Err("range"),
                }
            } else {
                match r.parse::<f64>() {
                    Ok(f) if f.fract() == 0.0 && (0.0..9e15).contains(&f) => Out::May(V::U(f as u128)),
                    Ok(f) if f.fract() == 0.0 && f > 0.0 && f < 1.9e19 => Out::Any,
                    _ => Out::Err("real"),
                }
            }
        }
        // leniency in the open
        (K::Sc(Sk::UInt(..)), Yaml::String(x)) => {
            if x.starts_with("0x") || x.starts_with("0o") || x.starts_with('+') {
                return Out::Any;
            }
            match x.parse::<u64>() {
                Ok(n) => Out::May(V::U(n as u128)),
                Err(_) => Out::Err("number"),
            }
        }
        (K::Sc(Sk::UInt(..)), Yaml::Boolean(b)) => Out::May(V::U(*b as u128)),
        (K::Sc(Sk::Str), Yaml::String(x)) => Out::Must(V::S(x.clone())),
        (K::Sc(_), _) => Out::Err("type"),
        (K::St(_, fs), Yaml::Hash(h)) => {
            let mut vals: Vec<Option<V>> = vec![None; fs.len()];
            let (mut may, mut any, mut err) = (false, false, None);
            for (k, x) in h {
                let Yaml::String(k) = k else {
                    match k {
                        Yaml::Integer(n) if fs.iter().any(|f| f.name == n.to_string()) => any = true,
                        _ => err = Some("key"),
                    }
                    continue;
                };
                let Some(i) = fs.iter().position(|f| f.name == k) else {
                    err = Some("unknown");
                    continue;
                };
                let (v, m) = match meaning(fs[i].t(), x) {
                    Out::Must(v) => (v, false),
                    Out::May(v) => (v, true),
                    Out::Any => {
                        any = true;
                        (V::Unit, false)
                    }
                    Out::Err(e) => {
                        err = Some(e);
                        (V::Unit, false)
                    }
                };
                may |= m;
                vals[i] = Some(v);
            }
            if let Some(e) = err {
                return Out::Err(e);
            }
            for (f, v) in fs.iter().zip(&vals) {
                if v.is_none() {
                    if f.default_v.is_some() || t.container_default || f.t().size == 0 || any {
                        any = true;
                    } else {
                        return Out::Err("missing");
                    }
                }
            }
            if any {
                return Out::Any;
            }
            let v = V::St(vals.into_iter().map(|v| v.unwrap()).collect());
            if t.invariant.is_some_and(|i| !i(&v)) {
                return Out::Any;
            }
            if may { Out::May(v) } else { Out::Must(v) }
        }
        (K::St(..), _) => Out::Err("type"),
        _ => Out::Any,
    }
}

fn judge(r: usize, x: &str, cx: &mut Ctx) -> R {
    let t = (ROOTS[r].ty)();
    if x.matches("- ").count() + x.matches("? ").count() > 1000 {
        // the reader itself may overflow; only that it does not blow up here
        tracked(t, APIS[r].yaml, x)?.ok();
        cx.label("deep");
        return Ok(());
    }
    let d = read(x);
    let got = tracked(t, APIS[r].yaml, x)?;
    let ctx = || format!("{} from {:?}", t.name, cut(x, 800));
    let docs = match d {
        Ok(d) if d.len() == 1 => d,
        o => {
            let w = if o.is_err() { "malformed" } else { "documents" };
            cx.label(w);
            return match got {
                Ok(v) => fail(format!("accepts-{w}"), format!("{}: not one YAML document, but gave {}", ctx(), short(&v))),
                Err(_) => Ok(()),
            };
        }
    };
    match (if supported(t) { meaning(t, &docs[0]) } else { Out::Any }, got) {
        (Out::Any, _) => cx.label("unpromised"),
        (Out::Err(w), Ok(v)) => return fail(format!("accepts-mismatch:{w}"), format!("{}: must be refused ({w}), but gave {}", ctx(), short(&v))),
        (Out::Err(w), Err(_)) => cx.label(&format!("refused-{w}")),
        (Out::Must(w) | Out::May(w), Ok(v)) => {
            cx.label("value");
            ensure!(v == w, "wrong-value", "{}: gave {}, means {}", ctx(), short(&v), short(&w));
        }
        (Out::Must(w), Err(e)) => return fail("refused", format!("{}: means {}, refused: {}", ctx(), short(&w), cut(&e, 300))),
        (Out::May(_), Err(_)) => cx.label("lenient"),
    }
    Ok(())
}

// ------------------------------------------------------------------ writing

fn plain(x: &str, flow: bool) -> bool {
    let _ = flow;
    let c: Vec<char> = x.chars().collect();
    !c.is_empty()
        && c[0].is_alphabetic()
        && c[c.len() - 1] != ' '
        && c.iter().all(|c| c.is_ascii_alphanumeric() || " _-./éß中".contains(*c))
        && !matches!(x.to_lowercase().as_str(), "true" | "false" | "null" | "nan" | "inf" | "infinity" | "yes" | "no" | "on" | "off" | "y" | "n")
}
fn double(x: &str, s: &mut Src) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\n' => Some("\\n"),
            '\t' => Some("\\t"),
            '\r' => Some("\\r"),
            '\0' => Some("\\0"),
            '\u{7}' => Some("\\a"),
            '\u{8}' => Some("\\b"),
            '\u{b}' => Some("\\v"),
            '\u{c}' => Some("\\f"),
            '\u{1b}' => Some("\\e"),
            '\u{85}' => Some("\\N"),
            '\u{a0}' => Some("\\_"),
            '\u{2028}' => Some("\\L"),
            '\u{2029}' => Some("\\P"),
            '/' if s.bool() => Some("\\/"),
            _ => None,
        };
        let n = c as u32;
        let must = short.is_some() || c.is_control() || n == 0xfeff || (0xfff0..=0xffff).contains(&n) || n & 0xfffe == 0xfffe;
        match short {
            Some(e) if s.chance(5, 6) => o.push_str(e),
            _ if must || s.chance(1, 12) => o.push_str(&match s.below(3) {
                0 if n < 0x100 => format!("\\x{n:02x}"),
                1 if n < 0x10000 => format!("\\u{n:04X}"),
                _ => format!("\\U{n:08x}"),
            }),
            _ => o.push(c),
        }
    }
    o.push('"');
    o
}
fn single(x: &str) -> Option<String> {
    if x.chars().any(|c| c.is_control() || matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}' | '\u{feff}')) {
        return None;
    }
    Some(format!("'{}'", x.replace('\'', "''")))
}
/// A block scalar: header, then indented lines.
fn literal(x: &str, indent: usize, s: &mut Src) -> Option<String> {
    let ok = !x.is_empty() && x.chars().all(|c| c == '\n' || (' '..='~').contains(&c) || c == 'é' || c == '中') && x.trim_matches('\n') == x.trim_start_matches('\n').trim_end_matches('\n');
    if !ok || x.trim().is_empty() || x.lines().any(|l| !l.is_empty() && l.trim().is_empty()) {
        return None;
    }
    let body = x.trim_end_matches('\n');
    let tail = x.len() - body.len();
    let chomp = match tail {
        0 => "-",
        1 => *s.pick(&["", "+"]),
        _ => "+",
    };
    let ind = s.range(1, 4);
    let explicit = body.starts_with(' ') || body.starts_with('\n') || s.chance(1, 5);
    let head = if explicit { format!("|{ind}{chomp}") } else { format!("|{chomp}") };
    let pad = " ".repeat(indent + ind);
    let mut o = head;
    o.push_str(*s.pick(&["", " ", " # literal"]));
    o.push('\n');
    for l in body.split('\n') {
        if !l.is_empty() {
            o.push_str(&pad);
            o.push_str(l);
        }
        o.push('\n');
    }
    for _ in 1..tail {
        o.push('\n');
    }
    // the line's own end comes from the caller
    o.pop();
    Some(o)
}
fn int(n: u64, s: &mut Src) -> String {
    match s.below(6) {
        1 if n <= i64::MAX as u64 => format!("0x{n:x}"),
        2 if n <= i64::MAX as u64 => format!("0x{n:X}"),
        3 if n <= i64::MAX as u64 => format!("0o{n:o}"),
        4 if n <= i64::MAX as u64 => format!("+{n}"),
        _ => n.to_string(),
    }
}
fn scalar(d: &Yt, s: &mut Src, block: Option<usize>) -> String {
    let deco = match s.below(24) {
        1 => "&anchor ",
        2 => match d {
            Int(n) if *n <= i64::MAX as u64 => "!!int ",
            Str(_) => "!!str ",
            _ => "",
        },
        _ => "",
    };
    let x = match d {
        Int(n) => {
            if deco == "!!int " { n.to_string() } else { int(*n, s) }
        }
        Str(x) => {
            let mut o = None;
            match s.below(5) {
                0 if plain(x, block.is_none()) => o = Some(x.clone()),
                1 => o = single(x),
                2 => {
                    if let Some(i) = block {
                        o = literal(x, i, s);
                    }
                }
                _ => {}
            }
            o.unwrap_or_else(|| double(x, s))
        }
        Raw(x) => return x.clone(),
        Map(_) => unreachable!(),
    };
    format!("{deco}{x}")
}
fn key(k: &str, s: &mut Src) -> String {
    match s.below(4) {
        0 | 1 if plain(k, true) => k.to_string(),
        2 => single(k).unwrap_or_else(|| double(k, s)),
        _ => double(k, s),
    }
}
fn flow(d: &Yt, s: &mut Src) -> String {
    match d {
        Map(m) => {
            let mut m = m.clone();
            s.shuffle(&mut m);
            let mut o = String::from("{");
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(*s.pick(&[" ", "", "  "]));
                o.push_str(&key(k, s));
                o.push_str(*s.pick(&[": ", ":  "]));
                o.push_str(&flow(x, s));
                o.push_str(*s.pick(&["", " "]));
            }
            if !m.is_empty() && s.chance(1, 6) {
                o.push(',');
            }
            o.push('}');
            o
        }
        d => scalar(d, s, None),
    }
}
fn comment(s: &mut Src) -> &'static str {
    *s.pick(&["", "", "", " # note", " #"])
}
/// A mapping in block style, each line with its end.
fn block(m: &[(String, Yt)], indent: usize, s: &mut Src) -> String {
    let mut m = m.to_vec();
    s.shuffle(&mut m);
    let pad = " ".repeat(indent);
    let mut o = String::new();
    for (k, x) in &m {
        if s.chance(1, 8) {
            o.push_str(*s.pick(&["\n", "# a comment\n", "   # far\n"]));
        }
        let k = key(k, s);
        let head = if s.chance(1, 10) { format!("{pad}? {k}\n{pad}:") } else { format!("{pad}{k}:") };
        match x {
            Map(sub) if !sub.is_empty() && s.chance(2, 3) => {
                let step = s.range(1, 4);
                o.push_str(&format!("{head}{}\n{}", comment(s), block(sub, indent + step, s)));
            }
            Map(_) => {
                let f = flow(x, s);
                o.push_str(&format!("{head} {f}{}\n", comment(s)));
            }
            x => {
                let v = scalar(x, s, Some(indent));
                let c = if v.contains('\n') { "" } else { comment(s) };
                let gap = if v.contains('\n') || s.chance(7, 8) { " ".to_string() } else { format!("\n{pad}  ") };
                o.push_str(&format!("{head}{gap}{v}{c}\n"));
            }
        }
    }
    o
}
pub fn write(d: &Yt, s: &mut Src) -> String {
    let mut o = String::new();
    match s.below(6) {
        1 => o.push_str("---\n"),
        2 => o.push_str("# head\n---\n"),
        3 => o.push_str("%YAML 1.2\n---\n"),
        4 => o.push_str("\n\n"),
        _ => {}
    }
    match d {
        Map(m) if !m.is_empty() && s.chance(3, 4) => {
            let i = if s.chance(1, 6) { 2 } else { 0 };
            o.push_str(&block(m, i, s));
        }
        d => {
            o.push_str(&flow(d, s));
            o.push('\n');
        }
    }
    match s.below(8) {
        1 => o.push_str("...\n"),
        2 => o.push_str("# tail\n"),
        3 => o.push('\n'),
        4 => {
            if !o.contains('|') {
                o.truncate(o.trim_end_matches('\n').len())
            }
        }
        _ => {}
    }
    o
}
/// Does the independent reading agree with what was to be written?
pub fn agrees(d: &Yt, y: &Yaml) -> bool {
    match (d, y) {
        (Int(n), Yaml::Integer(m)) => *m >= 0 && *n == *m as u64,
        (Int(n), Yaml::Real(r)) => *n > i64::MAX as u64 && *r == n.to_string(),
        (Str(a), Yaml::String(b)) => a == b,
        (Map(m), Yaml::Hash(h)) => m.len() == h.len() && m.iter().all(|(k, x)| h.get(&Yaml::String(k.clone())).is_some_and(|y| agrees(x, y))),
        _ => false,
    }
}

fn value_for(t: T, s: &mut Src) -> V {
    gen_v(t, s, Opt { finite: true, max_elems: 3, depth: 6, str_max: 10 })
}

fn spelled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_good(s);
    let t = (ROOTS[r].ty)();
    let v = value_for(t, s);
    let d = doc_of(t, &v);
    let x = write(&d, s);
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    let y = read(&x);
    let Ok(y) = y else {
        cx.label("dependency-refuses");
        return Ok(());
    };
    if y.len() != 1 || !agrees(&d, &y[0]) {
        cx.label("dependency-reads-otherwise");
        return Ok(());
    }
    if x.len() > 4 {
        cx.nontrivial();
    }
    if t.any(&mut |t| t.invariant.is_some()) {
        return judge(r, &x, cx);
    }
    match tracked(t, APIS[r].yaml, &x)? {
        Ok(g) => ensure!(g == v, "wrong-value", "{} from {:?}: gave {}, means {}", t.name, cut(&x, 800), short(&g), short(&v)),
        Err(e) => return fail("refused", format!("{} from {:?}: means {}, refused: {}", t.name, cut(&x, 800), short(&v), cut(&e, 300))),
    }
    Ok(())
}

// ------------------------------------------------------------------ damage

fn odd(s: &mut Src) -> Yt {
    match s.below(6) {
        0 => Int(s.uint(64) as u64),
        1 => Str(s.string(6)),
        2 => Map(vec![]),
        3 => Map(vec![(s.string(3), Int(s.uint(8) as u64))]),
        _ => Raw(s.pick(&["-1", "-9223372036854775808", "18446744073709551616", "9223372036854775808", "18446744073709551615", "1.0", "1.5", "-0", "-0.0", "1e3", ".inf", ".nan", "true", "false", "null", "~", "[]", "[1, 2]", "{}", "\"12\"", "'7'", "\"-1\"", "\"1.5\"", "\" 1\"", "0x10", "0xFFFFFFFFFFFFFFFF", "0o777", "0b11", "1_000", "+5", "\"+5\"", "2001-12-14", "!!str 5", "!!int 5", "!!int x", "!!float 1", "!!bool true", "!!null x", "!custom 5", "*none", "&a 5", "yes", "99999999999999999999", "-99999999999999999999", "1e19", "1e400", "\"\"", "''", "012", "0x", "0o8", "- 1"]).to_string()),
    }
}
fn mutate(d: &Yt, s: &mut Src) -> Yt {
    match d {
        Map(m) if !m.is_empty() && s.chance(9, 10) => {
            let mut m = m.clone();
            let i = s.below(m.len());
            match s.below(8) {
                0 => {
                    m.remove(i);
                }
                1 => {
                    let k = m[i].0.clone();
                    m[i].0 = if s.chance(1, 4) { s.string(3) } else { s.near_name(&k) };
                }
                2 => {
                    let k = m[i].0.clone();
                    let k = if s.bool() { s.string(4) } else { s.near_name(&k) };
                    m.push((k, odd(s)))
                }
                3 => {
                    let x = m[i].clone();
                    m.push(x);
                }
                _ => m[i].1 = mutate(&m[i].1, s),
            }
            Map(m)
        }
        Str(x) if s.chance(1, 4) => Raw(x.clone()),
        Int(n) if s.chance(1, 4) => Str(n.to_string()),
        Int(n) if s.chance(1, 4) => Raw(format!("-{n}")),
        _ => odd(s),
    }
}
fn any_root(s: &mut Src) -> usize {
    if s.chance(1, 10) { s.below(ROOTS.len()) } else { pick_good(s) }
}
const BITS: &[&str] = &["\n", " ", ":", ": ", "-", "- ", "\t", "#", "|", ">", "'", "\"", "{", "}", "[", "]", ",", "&", "*", "!", "!!", "%", "@", "`", "? ", "---\n", "\n---\n", "...\n", "\n...\n", "\\", "\\x", "\u{0}", "\u{feff}", "\u{85}", "<<: ", "\r", "\r\n"];
fn mutated(s: &mut Src, cx: &mut Ctx) -> R {
    let r = any_root(s);
    let t = (ROOTS[r].ty)();
    let how = s.below(10);
    let src = if how == 9 || !supported(t) { (ROOTS[pick_good(s)].ty)() } else { t };
    let v = value_for(src, s);
    let mut d = doc_of(src, &v);
    if how < 6 {
        for _ in 0..s.range(1, 2) {
            d = mutate(&d, s);
        }
    }
    let mut x = write(&d, s);
    if how == 6 {
        // more than one document
        let y = write(&d, s);
        x = format!("{x}\n---\n{y}");
    }
    if (7..9).contains(&how) {
        for _ in 0..s.range(1, 3) {
            let mut i = s.below(x.len() + 1);
            while !x.is_char_boundary(i) {
                i -= 1;
            }
            match s.below(4) {
                0 => x.truncate(i),
                1 if i < x.len() => {
                    x.remove(i);
                }
                _ => x.insert_str(i, *s.pick(BITS)),
            }
        }
    }
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    cx.nontrivial();
    judge(r, &x, cx)
}
fn soup(s: &mut Src, cx: &mut Ctx) -> R {
    let r = any_root(s);
    let t = (ROOTS[r].ty)();
    let names: Vec<&str> = match &t.k {
        K::St(_, f) => f.iter().map(|f| f.name).collect(),
        _ => vec![],
    };
    let mut x = String::new();
    let mut n = 0;
    while s.more(n, 20, 9, 10) {
        n += 1;
        match s.below(7) {
            0 | 1 if !names.is_empty() => {
                x.push_str(*s.pick(&names));
                x.push_str(*s.pick(&[": ", ":\n ", ":", ""]));
            }
            2 => {
                let d = odd(s);
                x.push_str(&flow(&d, s));
                x.push_str(*s.pick(&["\n", "\n", "", ", "]));
            }
            3 => x.push(s.char()),
            4 => {
                let k = if s.chance(1, 400) { 60_000 } else { s.below(40) };
                x.push_str(&s.pick(&["[", "{a: ", "- ", "? ", "{", "- - ? "]).repeat(k));
            }
            _ => x.push_str(*s.pick(BITS)),
        }
    }
    cx.sample(|| format!("{}: {}", t.name, cut(&x, 1000)));
    cx.key(&format!("{}{x}", t.name));
    if n > 1 {
        cx.nontrivial();
    }
    judge(r, &x, cx)
}

pub const Y01: Prop = Prop {
    id: "Y01",
    targets: &[
        Target { name: "spelled", quick: 150_000, thorough: 4_000_000, rule: "a random value of a supported type as a YAML document in random block, flow and scalar styles, with comments, anchors, tags and document markers, keys in any order. Non-trivial: more than four characters and the YAML reader agrees with what was written", f: spelled },
        Target { name: "mutated", quick: 200_000, thorough: 5_000_000, rule: "a document with entries removed, renamed, added, repeated or of another type, several documents, damaged text or another type's, decoded under the tracking allocator; the YAML reader's tree decides whether it must be refused. Every case counts", f: mutated },
        Target { name: "soup", quick: 100_000, thorough: 3_000_000, rule: "random tokens, the type's names and odd values. Non-trivial: more than one piece", f: soup },
    ],
};
