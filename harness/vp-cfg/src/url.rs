//! U01.
use crate::api::*;
use corpus::*;
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail};

pub fn supported(t: T) -> bool {
    matches!(t.k, K::St(..))
        && all(t, &|t| match &t.k {
            K::Sc(Sk::UInt(64, false)) => t.name == "u64",
            K::Sc(Sk::Str) => t.name == "String",
            K::St(_, f) => f.iter().all(|f| f.rename.is_none()) && f.len() <= 64,
            _ => false,
        })
}
thread_local! {
    static GOOD: Vec<usize> = (0..ROOTS.len()).filter(|i| supported((ROOTS[*i].ty)())).collect();
    static RICH: Vec<usize> = (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); supported(t) && t.size > 32 }).collect();
}
fn pick_good(s: &mut Src) -> usize {
    if s.chance(3, 4) { pick(&RICH, s) } else { pick(&GOOD, s) }
}

type Pair = (Vec<String>, String);

pub fn pairs_of(t: T, v: &V, at: &[String], out: &mut Vec<Pair>) {
    match (&t.k, v) {
        (K::St(_, fs), V::St(x)) => {
            for (f, x) in fs.iter().zip(x) {
                let mut p = at.to_vec();
                p.push(f.name.to_string());
                pairs_of(f.t(), x, &p, out);
            }
        }
        (_, V::U(n)) => out.push((at.to_vec(), n.to_string())),
        (_, V::S(x)) => out.push((at.to_vec(), x.clone())),
        _ => unreachable!(),
    }
}
/// Can the value be spelled? (a struct without fields cannot be mentioned)
pub fn spellable(t: T) -> bool {
    match &t.k {
        K::St(_, fs) => !fs.is_empty() && fs.iter().all(|f| spellable(f.t())),
        _ => true,
    }
}

// ------------------------------------------------------------------ writing

fn enc(x: &str, s: &mut Src) -> String {
    let mut o = String::new();
    let lax = s.bool();
    for b in x.as_bytes() {
        let safe = b.is_ascii_alphanumeric() || b"-_.*~!'(),/:;?@$".contains(b);
        let raw = safe || (lax && b"[]{}|^`\"<>\\#".contains(b)) || (lax && *b >= 0x80 && false);
        if *b == b' ' && s.bool() {
            o.push('+');
        } else if raw && !s.chance(1, 10) {
            o.push(*b as char);
        } else if s.bool() {
            o.push_str(&format!("%{b:02X}"));
        } else {
            o.push_str(&format!("%{b:02x}"));
        }
    }
    o
}
/// Text beyond ASCII may also stand for itself.
fn enc_raw(x: &str, s: &mut Src) -> String {
    if s.chance(3, 4) {
        return enc(x, s);
    }
    let mut o = String::new();
    for c in x.chars() {
        if c as u32 >= 0x80 || (c.is_ascii_control()) {
            o.push(c);
        } else {
            o.push_str(&enc(&c.to_string(), s));
        }
    }
    o
}
fn key(p: &[String], s: &mut Src) -> String {
    let mut o = enc(&p[0], s);
    for x in &p[1..] {
        o.push_str(*s.pick(&["[", "[", "%5B", "%5b"]));
        o.push_str(&enc(x, s));
        o.push_str(*s.pick(&["]", "]", "%5D", "%5d"]));
    }
    o
}
pub fn write(ps: &[Pair], s: &mut Src) -> String {
    let mut parts = vec![];
    for (k, v) in ps {
        let k = key(k, s);
        parts.push(if v.is_empty() && s.bool() { k } else { format!("{k}={}", enc_raw(v, s)) });
    }
    while s.chance(1, 10) {
        let i = s.below(parts.len() + 1);
        parts.insert(i, String::new());
    }
    parts.join("&")
}
fn fresh(t: T, s: &mut Src) -> String {
    // a name that is no field's
    let K::St(_, fs) = &t.k else { return "zz".to_string() };
    match s.below(6) {
        0 => s.string(4).replace(['[', ']'], "."),
        1 => "zz".to_string(),
        2 => "".to_string(),
        3 => "Name".to_string(),
        _ if fs.is_empty() => "zz".to_string(),
        _ => {
            let n = fs[s.below(fs.len())].name;
            s.near_name(n)
        }
    }
}
/// Keys that spell no field, at any level.
pub fn unknown(t: T, s: &mut Src) -> Option<Pair> {
    let mut p = vec![];
    let mut cur = t;
    loop {
        let K::St(_, fs) = &cur.k else { return None };
        let deeper: Vec<&Fd> = fs.iter().filter(|f| matches!(f.t().k, K::St(..))).collect();
        if !deeper.is_empty() && s.bool() {
            let f = deeper[s.below(deeper.len())];
            p.push(f.name.to_string());
            cur = f.t();
            continue;
        }
        let n = fresh(cur, s);
        if fs.iter().any(|f| f.name == n) {
            return None;
        }
        p.push(n);
        while s.chance(1, 4) {
            p.push(if s.bool() { s.pick(&["name", "num", "a", "0", ""]).to_string() } else { fresh(cur, s) });
        }
        return Some((p, s.string(5)));
    }
}

// ------------------------------------------------------------------ meaning

fn decode(x: &str) -> String {
    let b = x.as_bytes();
    let mut o = vec![];
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => o.push(b' '),
            b'%' if i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() => {
                o.push(hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap());
                i += 2;
            }
            c => o.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn read(x: &str) -> Vec<(String, String)> {
    x.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            (decode(k), decode(v))
        })
        .collect()
}
/// `a[b][c]`, or nothing.
fn segments(k: &str) -> Option<Vec<String>> {
    let Some((a, rest)) = k.split_once('[') else {
        return if k.contains(']') { None } else { Some(vec![k.to_string()]) };
    };
    if a.contains(']') {
        return None;
    }
    let mut out = vec![a.to_string()];
    let mut rest = rest;
    loop {
        let (x, r) = rest.split_once(']')?;
        if x.contains('[') {
            return None;
        }
        out.push(x.to_string());
        if r.is_empty() {
            return Some(out);
        }
        rest = r.strip_prefix('[')?;
    }
}
fn meaning(t: T, ps: &[(&[String], &str)]) -> Out {
    let K::St(_, fs) = &t.k else { unreachable!() };
    let (mut any, mut may, mut err, mut vals) = (false, false, None, vec![]);
    for f in fs {
        let mine: Vec<_> = ps.iter().filter(|(p, _)| p[0] == f.name).collect();
        let flat: Vec<&str> = mine.iter().filter(|(p, _)| p.len() == 1).map(|(_, v)| *v).collect();
        let nested: Vec<(&[String], &str)> = mine.iter().filter(|(p, _)| p.len() > 1).map(|(p, v)| (&p[1..], *v)).collect();
        let strukt = matches!(f.t().k, K::St(..));
        let o = if mine.is_empty() {
            if f.default_v.is_some() || t.container_default || f.t().size == 0 { Out::Any } else { Out::Err("missing") }
        } else if strukt && !flat.is_empty() {
            Out::Err("scalar-for-nested")
        } else if !strukt && !nested.is_empty() {
            Out::Err("nested-for-scalar")
        } else if strukt {
            meaning(f.t(), &nested)
        } else if flat.len() > 1 {
            // which one wins is not promised
            if matches!(f.t().k, K::Sc(Sk::UInt(..))) && flat.iter().all(|x| x.parse::<u64>().is_err()) { Out::Err("number") } else { Out::Any }
        } else if let K::Sc(Sk::UInt(..)) = f.t().k {
            match flat[0].parse::<u64>() {
                Ok(n) if flat[0].starts_with('+') => Out::May(V::U(n as u128)),
                Ok(n) => Out::Must(V::U(n as u128)),
                Err(_) => Out::Err("number"),
            }
        } else {
            Out::Must(V::S(flat[0].to_string()))
        };
        match o {
            Out::Must(v) => vals.push(v),
            Out::May(v) => {
                vals.push(v);
                may = true;
            }
            Out::Any => any = true,
            Out::Err(e) => err = Some(e),
        }
    }
    if let Some(e) = err {
        return Out::Err(e);
    }
    if any {
        return Out::Any;
    }
    let v = V::St(vals);
    if t.invariant.is_some_and(|i| !i(&v)) {
        return Out::Any;
    }
    if may { Out::May(v) } else { Out::Must(v) }
}
fn whole(t: T, x: &str) -> Out {
    let K::St(_, fs) = &t.k else { return Out::Any };
    let mut ps: Vec<(Vec<String>, String)> = vec![];
    let mut half = false;
    for (k, v) in read(x) {
        match segments(&k) {
            Some(p) if p.len() < 100 => ps.push((p, v)),
            // too deep for any type, or no key of ours; it may be objected to where it starts like a field
            _ => half |= fs.iter().any(|f| k.starts_with(f.name)),
        }
    }
    let r: Vec<(&[String], &str)> = ps.iter().map(|(p, v)| (&p[..], &v[..])).collect();
    match meaning(t, &r) {
        Out::Must(v) if half => Out::May(v),
        o => o,
    }
}
fn judge(r: usize, x: &str, cx: &mut Ctx) -> R {
    let t = (ROOTS[r].ty)();
    let m = if supported(t) { whole(t, x) } else { Out::Any };
    let got = tracked(t, APIS[r].url, x)?;
    let ctx = || format!("{} from {:?}", t.name, cut(x, 800));
    match (m, got) {
        (Out::Any, Ok(_)) => cx.label("unpromised"),
        (Out::Any, Err(_)) => cx.label("unpromised-refused"),
        (Out::Err(w), Ok(v)) => return fail(format!("accepts-mismatch:{w}"), format!("{}: must be refused ({w}), but gave {}", ctx(), short(&v))),
        (Out::Err(w), Err(_)) => cx.label(&format!("refused-{w}")),
        (Out::Must(w) | Out::May(w), Ok(v)) => {
            cx.label("value");
            ensure!(v == w, "wrong-value", "{}: gave {}, means {}", ctx(), short(&v), short(&w));
        }
        (Out::Must(w), Err(e)) => return fail("refused", format!("{}: means {}, refused: {}", ctx(), short(&w), cut(&e, 300))),
        (Out::May(_), Err(_)) => cx.label("lenient"),
    }
    Ok(())
}

// ------------------------------------------------------------------ targets

fn value_for(t: T, s: &mut Src) -> V {
    gen_v(t, s, Opt { finite: true, max_elems: 3, depth: 6, str_max: 10 })
}
fn spelled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_good(s);
    let t = (ROOTS[r].ty)();
    if !spellable(t) || t.any(&mut |t| t.invariant.is_some()) {
        cx.label("set-aside");
        return Ok(());
    }
    let v = value_for(t, s);
    let mut ps = vec![];
    pairs_of(t, &v, &[], &mut ps);
    while s.more(ps.len(), 200, 1, 3) {
        if let Some(u) = unknown(t, s) {
            ps.push(u);
        }
    }
    s.shuffle(&mut ps);
    let x = write(&ps, s);
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    if ps.len() > 1 {
        cx.nontrivial();
    }
    match tracked(t, APIS[r].url, &x)? {
        Ok(g) => ensure!(g == v, "wrong-value", "{} from {:?}: gave {}, means {}", t.name, cut(&x, 800), short(&g), short(&v)),
        Err(e) => return fail("refused", format!("{} from {:?}: means {}, refused: {}", t.name, cut(&x, 800), short(&v), cut(&e, 300))),
    }
    Ok(())
}
fn mutated(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 12) { s.below(ROOTS.len()) } else { pick_good(s) };
    let t = (ROOTS[r].ty)();
    let src = if supported(t) && s.chance(9, 10) { t } else { (ROOTS[pick_good(s)].ty)() };
    let v = value_for(src, s);
    let mut ps = vec![];
    pairs_of(src, &v, &[], &mut ps);
    let how = s.below(3);
    if how < 2 {
        for _ in 0..s.range(1, 2) {
            if ps.is_empty() {
                break;
            }
            let i = s.below(ps.len());
            match s.below(10) {
                0 => {
                    ps.remove(i);
                }
                1 => {
                    let mut x = ps[i].clone();
                    if s.bool() {
                        x.1 = s.string(4);
                    }
                    ps.push(x);
                }
                2 => ps[i].0.push(s.pick(&["", "a", "name", "0"]).to_string()),
                3 => {
                    if ps[i].0.len() > 1 {
                        ps[i].0.pop();
                    }
                }
                4 => {
                    if ps[i].0.len() > 1 {
                        ps[i].0.remove(0);
                    }
                }
                5 => {
                    let k = s.below(ps[i].0.len());
                    ps[i].0[k] = format!("{}{}", ps[i].0[k], s.pick(&["_", " ", "[", "]", "]x[", "[]", "%", "\0"]));
                }
                6 => {
                    let k = s.below(ps[i].0.len() + 1);
                    ps[i].0.insert(k, s.pick(&["", "a", "user", "addr"]).to_string());
                }
                _ => ps[i].1 = if s.bool() { s.pick(&["", "-1", "18446744073709551616", "1.0", " 1", "1 ", "0x10", "1e3", "+7", "٣", "00012", "1_000", "true", "99999999999999999999999", "18446744073709551615", "-0"]).to_string() } else { s.string(5) },
            }
        }
    }
    s.shuffle(&mut ps);
    let mut x = write(&ps, s);
    if how > 0 {
        for _ in 0..s.range(1, 3) {
            let mut i = s.below(x.len() + 1);
            while !x.is_char_boundary(i) {
                i -= 1;
            }
            match s.below(4) {
                0 => x.truncate(i),
                1 if i < x.len() => {
                    x.remove(i);
                }
                _ => x.insert_str(i, *s.pick(&["&", "=", "[", "]", "%", "%F", "%ff", "%C3", "+", "%5B", "%5D", "[]", "][", "[[", "]]", "a", "0", "%00", "é", "&&", "==", "%26", "%3D"])),
            }
        }
    }
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    cx.nontrivial();
    judge(r, &x, cx)
}
fn soup(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 12) { s.below(ROOTS.len()) } else { pick_good(s) };
    let t = (ROOTS[r].ty)();
    let names: Vec<&str> = match &t.k {
        K::St(_, f) => f.iter().map(|f| f.name).collect(),
        _ => vec![],
    };
    let mut x = String::new();
    let mut n = 0;
    while s.more(n, 30, 14, 15) {
        n += 1;
        match s.below(6) {
            0 | 1 if !names.is_empty() => x.push_str(*s.pick(&names)),
            2 => x.push_str(*s.pick(&["&", "=", "=1&", "=x&", "[", "]", "[a]", "[name]", "[street]", "[num]", "%5B", "%", "+", "%00", "%ff"])),
            3 => {
                let c = s.char();
                x.push(c);
            }
            4 => {
                let k = if s.chance(1, 500) { 100_000 } else { s.below(200) };
                let b = *s.pick(&["[", "]", "[a]", "%5B", "[a", "&"]);
                x.push_str(&b.repeat(k));
            }
            _ => x.push_str(*s.pick(&["=1", "&", "=18446744073709551615&", "=-1&"])),
        }
    }
    cx.sample(|| format!("{}: {}", t.name, cut(&x, 1000)));
    cx.key(&format!("{}{x}", t.name));
    if n > 1 {
        cx.nontrivial();
    }
    judge(r, &x, cx)
}

pub const U01: Prop = Prop {
    id: "U01",
    targets: &[
        Target { name: "spelled", quick: 200_000, thorough: 5_000_000, rule: "a random value of a supported struct as pairs in any order, with percent and plus spellings and unknown keys at every level. Non-trivial: more than one pair", f: spelled },
        Target { name: "mutated", quick: 250_000, thorough: 6_000_000, rule: "pairs removed, repeated, moved to another level, with odd values or damaged text, decoded under the tracking allocator; an independent form parser decides whether it must be refused. Every case counts", f: mutated },
        Target { name: "soup", quick: 150_000, thorough: 4_000_000, rule: "random names, brackets, escapes and deep nesting. Non-trivial: more than one piece", f: soup },
    ],
};
