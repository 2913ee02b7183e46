//! M01-M03.
use crate::mp::{self, Doc, Reader, Style};
use corpus::natives::Root;
use corpus::*;
use facet_msgpack::DecodeError;
use facet_reflect::Wip;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use vpcore::alloc::{Scope, untracked};
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail};

pub struct Api {
    pub to_vec: fn(&V) -> Vec<u8>,
    pub from_slice: fn(&[u8]) -> Result<V, String>,
    pub from_str: fn(&[u8]) -> Result<V, String>,
}
fn text(e: DecodeError) -> String {
    let (a, b) = (e.to_string(), format!("{e:?}"));
    drop(e);
    untracked(|| format!("{a}|{b}"))
}
#[allow(deprecated)]
mod apis {
    use super::*;
    macro_rules! apis {
        ($([$($t:tt)*])*) => {
            pub static APIS: &[Api] = &[$(Api {
                to_vec: |v| facet_msgpack::to_vec(&<$($t)* as Gt>::from_v(v)),
                from_slice: |s| match facet_msgpack::from_slice::<$($t)*>(s) {
                    Ok(x) => Ok(untracked(|| x.to_v())),
                    Err(e) => Err(text(e)),
                },
                from_str: |s| match facet_msgpack::from_str::<$($t)*>(s) {
                    Ok(x) => Ok(untracked(|| x.to_v())),
                    Err(e) => Err(text(e)),
                },
            }),*];
        };
    }
    with_roots!(apis);
}
use apis::APIS;

fn scalar_name(t: T) -> bool {
    t.any(&mut |t| matches!(t.name, "usize" | "isize"))
}
fn all(t: T, f: &dyn Fn(T) -> bool) -> bool {
    !t.any(&mut |t| !f(t))
}
/// What the decoder is for.
fn decodable(t: T) -> bool {
    !scalar_name(t)
        && all(t, &|t| match &t.k {
            K::Sc(Sk::Bool | Sk::UInt(8 | 16 | 32 | 64, false) | Sk::Int(8 | 16 | 32 | 64, false)) => true,
            K::Sc(Sk::Str) => t.name == "String",
            // a renamed field's key is not settled for this format
            K::St(_, f) => f.iter().all(|f| f.rename.is_none()),
            _ => false,
        })
}
/// What the encoder is for.
fn encodable(t: T) -> bool {
    decodable(t) && all(t, &|t| !matches!(&t.k, K::Sc(Sk::Bool)))
}
thread_local! {
    static ENC: Vec<usize> = (0..ROOTS.len()).filter(|i| encodable((ROOTS[*i].ty)())).collect();
    static DEC: Vec<usize> = (0..ROOTS.len()).filter(|i| decodable((ROOTS[*i].ty)())).collect();
    static INV: Vec<usize> = (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); t.invariant.is_some() && decodable(t) }).collect();
}
fn pick(k: &'static std::thread::LocalKey<Vec<usize>>, s: &mut Src) -> usize {
    // compound ones more often
    k.with(|v| {
        let r = v[s.below(v.len())];
        let t = (ROOTS[r].ty)();
        if matches!(t.k, K::Sc(_)) && s.bool() { v[s.below(v.len())] } else { r }
    })
}

/// A value with lengths around the formats' limits.
fn value(t: T, s: &mut Src) -> V {
    match &t.k {
        K::Sc(Sk::Str) => V::S(mp::text(s, true)),
        K::St(_, f) => V::St(f.iter().map(|f| value(f.t(), s)).collect()),
        K::Sc(Sk::UInt(b, _)) | K::Sc(Sk::Int(b, _)) if s.bool() => {
            // around the limits of the formats
            let edge = *s.pick(&[0i128, 32, 128, 256, 32768, 65536, 1 << 31, 1 << 32, 1 << 63, 1 << 64]) + s.below(5) as i128 - 2;
            let signed = matches!(&t.k, K::Sc(Sk::Int(..)));
            let edge = if signed && s.bool() { -edge } else { edge };
            let (lo, hi) = if signed { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) };
            let n = edge.clamp(lo, hi);
            if signed { V::I(n) } else { V::U(n as u128) }
        }
        _ => gen_v(t, s, Opt { finite: true, max_elems: 3, depth: 4, str_max: 10 }),
    }
}

fn doc_of(t: T, v: &V) -> Doc {
    match (&t.k, v) {
        (_, V::B(b)) => Doc::Bool(*b),
        (_, V::U(n)) => Doc::Int(*n as i128),
        (_, V::I(n)) => Doc::Int(*n),
        (_, V::S(x)) => Doc::Str(x.as_bytes().to_vec()),
        (K::St(_, fs), V::St(x)) => Doc::Map(fs.iter().zip(x).map(|(f, x)| (Doc::Str(f.name.as_bytes().to_vec()), doc_of(f.t(), x))).collect()),
        _ => unreachable!(),
    }
}

fn hex(b: &[u8]) -> String {
    let k = b.len().min(200);
    let mut o: String = b[..k].iter().map(|x| format!("{x:02x}")).collect();
    if k < b.len() {
        o.push_str(&format!("...({} bytes)", b.len()));
    }
    o
}
fn short(v: &V) -> String {
    let x = format!("{v:?}");
    let mut k = x.len().min(500);
    while !x.is_char_boundary(k) {
        k -= 1;
    }
    x[..k].to_string()
}

// ------------------------------------------------------------------ M01

fn encode(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&ENC, s);
    let t = (ROOTS[r].ty)();
    let v = value(t, s);
    cx.sample(|| format!("{}: {}", t.name, short(&v)));
    cx.key(&format!("{}{v:?}", t.name));
    let b = (APIS[r].to_vec)(&v);
    if b.len() > 1 {
        cx.nontrivial();
    }
    let mut rd = Reader::new(&b);
    let Some(d) = rd.value(100) else { return fail("malformed", format!("{} {}: not MessagePack: {}", t.name, short(&v), hex(&b))) };
    ensure!(rd.at == b.len(), "trailing", "{} {}: more than one object: {}", t.name, short(&v), hex(&b));
    ensure!(same(t, &v, &d), "wrong-value", "{} {}: denotes {}: {}", t.name, short(&v), format!("{d:?}").chars().take(400).collect::<String>(), hex(&b));
    ensure!(rd.compact, "not-compact", "{} {}: not the most compact: {}", t.name, short(&v), hex(&b));
    Ok(())
}
/// Maps have no order.
fn same(t: T, v: &V, d: &Doc) -> bool {
    match (&t.k, v, d) {
        (K::St(_, fs), V::St(x), Doc::Map(m)) => {
            m.len() == fs.len() && fs.iter().zip(x).all(|(f, x)| m.iter().any(|(k, y)| *k == Doc::Str(f.name.as_bytes().to_vec()) && same(f.t(), x, y)))
        }
        _ => doc_of(t, v) == *d,
    }
}

// ------------------------------------------------------------------ meaning

#[derive(Debug)]
enum Out {
    Must(V),
    May(V),
    Err(&'static str),
    Any,
}

fn meaning(t: T, d: &Doc) -> Out {
    let num = |n: i128, lo: i128, hi: i128| n >= lo && n <= hi;
    match (&t.k, d) {
        (K::Sc(Sk::Bool), Doc::Bool(b)) => Out::Must(V::B(*b)),
        (K::Sc(Sk::UInt(b, false)), Doc::Int(n)) => {
            if num(*n, 0, (1i128 << b) - 1) { Out::Must(V::U(*n as u128)) } else { Out::Err("range") }
        }
        (K::Sc(Sk::Int(b, false)), Doc::Int(n)) => {
            if num(*n, -(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) { Out::Must(V::I(*n)) } else { Out::Err("range") }
        }
        (K::Sc(Sk::Str), Doc::Str(b)) => match std::str::from_utf8(b) {
            Ok(x) => Out::Must(V::S(x.to_string())),
            Err(_) => Out::Err("utf8"),
        },
        (K::Sc(Sk::Bool | Sk::UInt(..) | Sk::Int(..) | Sk::Str), _) => Out::Err("type"),
        (K::St(k, fs), Doc::Map(m)) => {
            let mut vals: Vec<Option<V>> = vec![None; fs.len()];
            let (mut may, mut any, mut err) = (false, false, None);
            for (key, x) in m {
                let Doc::Str(key) = key else {
                    any = true;
                    continue;
                };
                if std::str::from_utf8(key).is_err() {
                    err = Some("utf8");
                    continue;
                }
                match fs.iter().position(|f| f.name.as_bytes() == &key[..]) {
                    None => {
                        any |= t.deny_unknown;
                        may |= odd(x);
                    }
                    Some(i) => {
                        if vals[i].is_some() {
                            any = true;
                        }
                        match meaning(fs[i].t(), x) {
                            Out::Must(v) => vals[i] = Some(v),
                            Out::May(v) => {
                                vals[i] = Some(v);
                                may = true;
                            }
                            Out::Err(e) => {
                                err = Some(e);
                                vals[i] = Some(V::Unit);
                            }
                            Out::Any => {
                                any = true;
                                vals[i] = Some(V::Unit);
                            }
                        }
                    }
                }
            }
            let _ = k;
            if any {
                return Out::Any;
            }
            if let Some(e) = err {
                return Out::Err(e);
            }
            for (f, v) in fs.iter().zip(&vals) {
                if v.is_none() {
                    // defaults are not promised for this format, a zero-field struct holds nothing
                    if f.default_v.is_some() || t.container_default || f.t().size == 0 {
                        return Out::Any;
                    }
                    return Out::Err("missing");
                }
            }
            let v = V::St(vals.into_iter().map(|v| v.unwrap()).collect());
            if let Some(i) = t.invariant {
                if !i(&v) {
                    return Out::Any;
                }
            }
            if may { Out::May(v) } else { Out::Must(v) }
        }
        (K::St(..), Doc::Deep) => Out::Any,
        (K::St(..), _) => Out::Err("type"),
        _ => Out::Any,
    }
}
/// Parts of a skipped object that a strict decoder may object to.
fn odd(d: &Doc) -> bool {
    match d {
        Doc::Str(b) => std::str::from_utf8(b).is_err(),
        Doc::Arr(a) => a.iter().any(odd),
        Doc::Map(m) => m.iter().any(|(k, x)| odd(k) || odd(x)),
        // depth limits are fair
        Doc::Deep => true,
        _ => false,
    }
}

fn decode(r: usize, b: &[u8], s: &mut Src) -> Result<Result<V, String>, vpcore::Fail> {
    let t = (ROOTS[r].ty)();
    let how = s.below(3);
    let sc = Scope::begin();
    let out = match how {
        0 => (APIS[r].from_slice)(b),
        1 => (APIS[r].from_str)(b),
        _ => {
            // lives until the end of the case
            let b: &'static [u8] = unsafe { &*(b as *const [u8]) };
            match facet_msgpack::from_slice_value(Wip::alloc_shape(t.sh()), b) {
                Ok(h) => (t.materialize)(h).map_err(|e| {
                    let x = e.to_string();
                    untracked(|| x.clone())
                }),
                Err(e) => Err(text(e)),
            }
        }
    };
    let rep = sc.end();
    if !rep.clean() {
        return fail(format!("memory:{}", rep.kind()), format!("decoding {} from {}: allocator saw {rep:?}", t.name, hex(b)));
    }
    ensure!(rep.bytes <= (1 << 20) + 64 * b.len(), "runaway", "decoding {} from {}: {} bytes allocated", t.name, hex(b), rep.bytes);
    Ok(out)
}

fn judge(r: usize, b: &[u8], s: &mut Src, cx: &mut Ctx) -> R {
    let t = (ROOTS[r].ty)();
    let mut rd = Reader::new(b);
    let d = rd.value(100);
    let got = decode(r, b, s)?;
    let ctx = || format!("{} from {}", t.name, hex(b));
    let Some(d) = d else {
        cx.label("malformed");
        return match got {
            Ok(v) => fail("accepts-malformed", format!("{}: not MessagePack, but gave {}", ctx(), short(&v))),
            Err(_) => Ok(()),
        };
    };
    let rest = rd.at < b.len();
    let m = if decodable(t) { meaning(t, &d) } else { Out::Any };
    match (m, got) {
        (Out::Any, _) => cx.label("unpromised"),
        (Out::Err(w), Ok(v)) => return fail(format!("accepts-mismatch:{w}"), format!("{}: must be refused ({w}), but gave {}", ctx(), short(&v))),
        (Out::Err(w), Err(_)) => cx.label(&format!("refused-{w}")),
        (Out::Must(w) | Out::May(w), Ok(v)) => {
            cx.label("value");
            ensure!(v == w, "wrong-value", "{}: gave {}, means {}", ctx(), short(&v), short(&w));
        }
        (Out::Must(w), Err(e)) => {
            ensure!(rest, "refused", "{}: means {}, refused: {e}", ctx(), short(&w));
        }
        (Out::May(_), Err(_)) => cx.label("lenient"),
    }
    Ok(())
}

// ------------------------------------------------------------------ M02

fn spelled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&DEC, s);
    let t = (ROOTS[r].ty)();
    let v = value(t, s);
    let d = extend(t, doc_of(t, &v), s);
    let st = Style::pick(s);
    let mut b = vec![];
    mp::write(&d, s, st, &mut b);
    cx.sample(|| format!("{}: {}", t.name, hex(&b)));
    cx.key(&format!("{}{b:?}", t.name));
    if b.len() > 1 {
        cx.nontrivial();
    }
    // the reader has to agree with the writer
    ensure!(Reader::new(&b).value(100).as_ref() == Some(&d) || has_deep(&d), "harness-reader", "{d:?} {b:02x?}");
    judge(r, &b, s, cx)
}
fn has_deep(d: &Doc) -> bool {
    match d {
        Doc::Arr(a) => a.iter().any(has_deep),
        Doc::Map(m) => m.iter().any(|(k, x)| has_deep(k) || has_deep(x)),
        Doc::Deep => true,
        _ => false,
    }
}
/// Shuffled keys and unknown entries, at every nesting.
fn extend(t: T, d: Doc, s: &mut Src) -> Doc {
    match (&t.k, d) {
        (K::St(_, fs), Doc::Map(m)) => {
            let mut m: Vec<(Doc, Doc)> = m.into_iter().zip(fs).map(|((k, x), f)| (k, extend(f.t(), x, s))).collect();
            if s.chance(2, 3) {
                s.shuffle(&mut m);
            }
            while s.more(m.len(), fs.len() + 20, 1, 4) {
                let k = if s.chance(1, 4) && !fs.is_empty() {
                    let n = fs[s.below(fs.len())].name;
                    s.near_name(n)
                } else { mp::text(s, false) };
                if fs.iter().any(|f| f.name == k) {
                    break;
                }
                let x = mp::any(s, 3);
                let i = s.below(m.len() + 1);
                m.insert(i, (Doc::Str(k.into_bytes()), x));
            }
            if s.chance(1, 500) {
                // more entries than 8 or 16 bits can count
                let n = if s.chance(1, 3) { *s.pick(&[65535, 65536, 65540, 70000]) } else { s.range(200, 300) };
                let x = mp::any(s, 0);
                let more = (0..n).map(|i| (format!("+{i}"), x.clone())).filter(|(k, _)| fs.iter().all(|f| f.name != *k));
                let i = s.below(m.len() + 1);
                m.splice(i..i, more.map(|(k, x)| (Doc::Str(k.into_bytes()), x)));
            }
            Doc::Map(m)
        }
        (_, d) => d,
    }
}

fn roundtrip(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&ENC, s);
    let t = (ROOTS[r].ty)();
    let v = value(t, s);
    if t.invariant.is_some_and(|i| !i(&v)) || t.any(&mut |t| t.invariant.is_some()) {
        return Ok(());
    }
    let b = (APIS[r].to_vec)(&v);
    cx.sample(|| format!("{}: {}", t.name, hex(&b)));
    cx.key(&format!("{}{b:?}", t.name));
    if b.len() > 1 {
        cx.nontrivial();
    }
    match decode(r, &b, s)? {
        Ok(g) => ensure!(g == v, "roundtrip", "{} {}: encoded as {}, decoded as {}", t.name, short(&v), hex(&b), short(&g)),
        Err(e) => return fail("roundtrip-refused", format!("{} {}: encoded as {}, refused: {e}", t.name, short(&v), hex(&b))),
    }
    Ok(())
}

// ------------------------------------------------------------------ M03

fn mutate(d: &Doc, s: &mut Src) -> Doc {
    match d {
        Doc::Map(m) if !m.is_empty() && s.chance(7, 8) => {
            let mut m = m.clone();
            let i = s.below(m.len());
            match s.below(8) {
                0 => {
                    m.remove(i);
                }
                1 => m[i].0 = mp::any(s, 1),
                2 => {
                    let x = (m[i].0.clone(), mp::any(s, 2));
                    let j = s.below(m.len() + 1);
                    m.insert(j, x);
                }
                3 => {
                    let x = m[i].clone();
                    m.push(x);
                }
                _ => m[i].1 = mutate(&m[i].1, s),
            }
            Doc::Map(m)
        }
        Doc::Int(n) if s.chance(2, 3) => match s.below(3) {
            0 => Doc::Int((-n).clamp(i64::MIN as i128, u64::MAX as i128)),
            1 => Doc::Int((n + (1i128 << *s.pick(&[7, 8, 15, 16, 31, 32, 63]))).min(u64::MAX as i128)),
            _ => {
                let b = *s.pick(&[8u32, 16, 32, 64]);
                Doc::Int(if s.bool() { s.uint(b) as i128 } else { s.int(b) })
            }
        },
        Doc::Str(b) if s.bool() => {
            let mut b = b.clone();
            let i = s.below(b.len() + 1);
            b.splice(i..i, s.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\x80", b"\xf0\x9f\x98"]).iter().copied());
            Doc::Str(b)
        }
        _ => mp::any(s, 2),
    }
}

fn mutated(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 8) { s.below(ROOTS.len()) } else { pick(&DEC, s) };
    let t = (ROOTS[r].ty)();
    let mut b = vec![];
    let src = if decodable(t) { t } else { (ROOTS[pick(&DEC, s)].ty)() };
    let how = s.below(8);
    let src = if how == 7 { (ROOTS[pick(&DEC, s)].ty)() } else { src };
    let mut d = extend(src, doc_of(src, &value(src, s)), s);
    if how < 3 {
        for _ in 0..s.range(1, 2) {
            d = mutate(&d, s);
        }
    }
    let st = Style::pick(s);
    mp::write(&d, s, st, &mut b);
    if how == 3 {
        // cut short, most often where something ends
        let mut rd = Reader::new(&b);
        rd.value(100);
        let k = if s.chance(2, 3) && !rd.cuts.is_empty() { rd.cuts[s.below(rd.cuts.len())] - s.below(2) } else { s.below(b.len() + 1) };
        b.truncate(k.min(b.len()));
    }
    if (4..=6).contains(&how) {
        for _ in 0..s.range(1, 3) {
            let i = s.below(b.len() + 1);
            let header = *s.pick(&[0xc1u8, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xff, 0x80, 0x90, 0xa1, 0xbf, 0x00, 0x7f]);
            match s.below(5) {
                0 if i < b.len() => b[i] = s.draw(256) as u8,
                1 if i < b.len() => b[i] = header,
                2 if i < b.len() => {
                    b.remove(i);
                }
                3 => b.insert(i, s.draw(256) as u8),
                _ => b.insert(i, header),
            }
        }
    }
    cx.sample(|| format!("{}: {}", t.name, hex(&b)));
    cx.key(&format!("{}{b:?}", t.name));
    cx.nontrivial();
    judge(r, &b, s, cx)
}

fn soup(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 8) { s.below(ROOTS.len()) } else { pick(&DEC, s) };
    let t = (ROOTS[r].ty)();
    let mut b: Vec<u8> = vec![];
    let mut n = 0;
    let names: Vec<&str> = match &t.k {
        K::St(_, f) => f.iter().map(|f| f.name).collect(),
        _ => vec![],
    };
    if !names.is_empty() && s.bool() {
        b.push(0x80 | names.len().min(15) as u8);
    }
    while s.more(n, 30, 9, 10) {
        n += 1;
        match s.below(6) {
            0 => b.push(s.draw(256) as u8),
            1 if !names.is_empty() => {
                let k = *s.pick(&names);
                mp::write(&Doc::Str(k.as_bytes().to_vec()), s, Style::SHORT, &mut b);
            }
            2 => {
                let d = mp::any(s, 1);
                let st = Style::pick(s);
                mp::write(&d, s, st, &mut b);
            }
            3 => b.push(*s.pick(&[0xc1u8, 0xc4, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcf, 0xd3, 0xd4, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf])),
            4 => {
                // huge lengths
                b.push(*s.pick(&[0xdb, 0xc6, 0xc9, 0xdd, 0xdf]));
                b.extend(s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 24, 70000]).to_be_bytes());
            }
            _ => {
                // deep nesting
                let k = if s.chance(1, 600) { 200_000 } else { s.below(60) };
                let c = *s.pick(&[&[0x91u8][..], &[0x81, 0xa0], &[0xdc, 0, 1], &[0x81, 0xa1, b'a']]);
                for _ in 0..k {
                    b.extend(c);
                }
            }
        }
    }
    cx.sample(|| format!("{}: {}", t.name, hex(&b)));
    cx.key(&format!("{}{b:?}", t.name));
    if b.len() > 1 {
        cx.nontrivial();
    }
    judge(r, &b, s, cx)
}

// ------------------------------------------------------------------ W04

fn w04(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&INV, s);
    let t = (ROOTS[r].ty)();
    let (v, holds) = near_invariant(t, s, Opt { finite: true, max_elems: 3, depth: 4, str_max: 10 });
    let d = extend(t, doc_of(t, &v), s);
    let st = Style::pick(s);
    let mut b = vec![];
    mp::write(&d, s, st, &mut b);
    cx.label(&format!("{}:{holds}", t.name));
    cx.sample(|| format!("{}: {}", t.name, hex(&b)));
    cx.key(&format!("{}{b:?}", t.name));
    cx.nontrivial();
    match decode(r, &b, s)? {
        Ok(g) => {
            ensure!(holds, "unheld", "{} from {}: the invariant does not hold, but it gave {}", t.name, hex(&b), short(&g));
            ensure!(g == v || !all_hold(t, &v), "wrong-value", "{} from {}: gave {}, means {}", t.name, hex(&b), short(&g), short(&v));
        }
        // unknown entries with odd contents may be objected to
        Err(e) => ensure!(!all_hold(t, &v) || !matches!(meaning(t, &d), Out::Must(_)), "refused", "{} from {}: every invariant holds for {}, refused: {e}", t.name, hex(&b), short(&v)),
    }
    Ok(())
}
pub const W04: Prop = Prop {
    id: "W04",
    targets: &[Target { name: "msgpack", quick: 50_000, thorough: 1_500_000, rule: "MessagePack of a value of a type with invariants, about half of them breaking it, decoded: refused iff the root type's invariant (called natively) does not hold. Every case counts", f: w04 }],
};
pub const M01: Prop = Prop {
    id: "M01",
    targets: &[Target { name: "encode", quick: 400_000, thorough: 10_000_000, rule: "a random value of an encodable root type, integers and lengths biased to the limits of every format, encoded and read back by an independent reader that also checks compactness. Non-trivial: more than one byte", f: encode }],
};
pub const M02: Prop = Prop {
    id: "M02",
    targets: &[
        Target { name: "spelled", quick: 400_000, thorough: 10_000_000, rule: "a random value of a decodable type written with random (also oversized) formats, keys in any order and unknown entries of every MessagePack type. Non-trivial: more than one byte", f: spelled },
        Target { name: "roundtrip", quick: 300_000, thorough: 6_000_000, rule: "encoder output of a random value, decoded. Non-trivial: more than one byte", f: roundtrip },
    ],
};
pub const M03: Prop = Prop {
    id: "M03",
    targets: &[
        Target { name: "mutated", quick: 500_000, thorough: 12_000_000, rule: "an encoding with values replaced, cut short, bytes damaged, or of another type, decoded under the tracking allocator; an independent reader decides whether it must be refused. Every case counts", f: mutated },
        Target { name: "soup", quick: 300_000, thorough: 6_000_000, rule: "random headers, bytes, the type's keys, huge lengths and deep nesting. Non-trivial: more than one byte", f: soup },
    ],
};
#[allow(unused)]
fn _unused(_: Arc<u8>, _: HashMap<u8, u8>, _: BTreeMap<u8, u8>, _: Cow<str>, _: &Root) {}
