//! J01-J04 and the JSON side of W04.
use crate::doc::{self, Doc, Style};
use crate::sem::*;
use corpus::natives::Root;
use corpus::*;
use facet_json::JsonErrorKind;
use facet_reflect::Wip;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::Arc;
use vpcore::alloc::{Scope, untracked};
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail};

pub struct Info {
    pub kind: &'static str,
    pub name: String,
    pub text: String,
}

fn info(e: &facet_json::JsonParseErrorWithContext<'_>) -> Info {
    // rendering the error must never fail
    let (a, b, c) = (format!("{e}"), format!("{e:?}"), e.message());
    let (kind, name) = match &e.kind {
        JsonErrorKind::UnexpectedEof(_) => ("eof", String::new()),
        JsonErrorKind::MissingField(f) => ("missing", f.to_string()),
        JsonErrorKind::UnexpectedCharacter(_) => ("char", String::new()),
        JsonErrorKind::NumberOutOfRange(_) => ("range", String::new()),
        JsonErrorKind::StringAsNumber(_) => ("number-for-string", String::new()),
        JsonErrorKind::UnknownField(f) => ("unknown", untracked(|| f.clone())),
        JsonErrorKind::InvalidUtf8(_) => ("utf8", String::new()),
        _ => ("other", String::new()),
    };
    let r = untracked(|| Info { kind, name: name.clone(), text: format!("{a}|{b}|{c}") });
    drop(name);
    r
}

pub struct Api {
    pub name: &'static str,
    pub to_string: fn(&V) -> String,
    pub to_writer: fn(&V, &mut dyn Write) -> std::io::Result<()>,
    pub from_str: fn(&str) -> Result<V, Info>,
    pub from_slice: fn(&[u8]) -> Result<V, Info>,
}
pub struct Dyn<'a>(&'a mut dyn Write);
impl Write for Dyn<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

macro_rules! apis {
    ($([$($t:tt)*])*) => {
        static APIS: &[Api] = &[$(Api {
            name: stringify!($($t)*),
            to_string: |v| facet_json::to_string(&<$($t)* as Gt>::from_v(v)),
            to_writer: |v, w| facet_json::to_writer(&<$($t)* as Gt>::from_v(v), &mut Dyn(w)),
            from_str: |s| match facet_json::from_str::<$($t)*>(s) {
                Ok(x) => Ok(untracked(|| x.to_v())),
                Err(e) => Err(info(&e)),
            },
            from_slice: |s| match facet_json::from_slice::<$($t)*>(s) {
                Ok(x) => Ok(untracked(|| x.to_v())),
                Err(e) => Err(info(&e)),
            },
        }),*];
    };
}
with_roots!(apis);

/// Decode in one of the three ways, under the allocator's eyes.
fn decode(r: usize, bytes: &[u8], s: &mut Src) -> Result<Result<V, Info>, vpcore::Fail> {
    let t = (ROOTS[r].ty)();
    let how = s.below(3);
    let sc = Scope::begin();
    let out = match (how, std::str::from_utf8(bytes)) {
        (0, Ok(x)) => (APIS[r].from_str)(x),
        (1, _) => match facet_json::from_slice_wip(Wip::alloc_shape(t.sh()), bytes) {
            Ok(h) => match (t.materialize)(h) {
                Ok(v) => Ok(v),
                Err(e) => {
                    let text = e.to_string();
                    Err(untracked(|| Info { kind: "materialize", name: String::new(), text: text.clone() }))
                }
            },
            Err(e) => Err(info(&e)),
        },
        _ => (APIS[r].from_slice)(bytes),
    };
    let rep = sc.end();
    if !rep.clean() {
        return fail(format!("memory:{}", rep.kind()), format!("decoding {} from {}: allocator saw {rep:?}", t.name, show(bytes)));
    }
    Ok(out)
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut k = s.len().min(900);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{:?}", &s[..k])
}

/// Compare what decoding did with what the document means.
fn judge(r: usize, bytes: &[u8], s: &mut Src, cx: &mut Ctx) -> R {
    let t = (ROOTS[r].ty)();
    let d = doc::parse(bytes);
    let want = match &d {
        None => None,
        Some(d) => Some(root_meaning(t, d)),
    };
    let got = decode(r, bytes, s)?;
    let ctx = || format!("{} from {}", t.name, show(bytes));
    match (want, got) {
        (None, Ok(v)) => fail("accepts-malformed", format!("{}: not JSON, but gave {v:?}", ctx())),
        (None, Err(e)) => {
            cx.label("malformed");
            ensure!(!e.text.is_empty(), "empty-error", "{}", ctx());
            Ok(())
        }
        (Some(Out::Any), _) => {
            cx.label("unpromised");
            Ok(())
        }
        (Some(Out::Must(w)), Ok(v)) => {
            cx.label("value");
            ensure!(v == w, "wrong-value", "{}: gave {v:?}, means {w:?}", ctx());
            Ok(())
        }
        (Some(Out::Must(w)), Err(e)) => fail(format!("refused:{}", e.kind), format!("{}: means {w:?}, refused: {}", ctx(), e.text)),
        (Some(Out::May(w)), g) => {
            cx.label("lenient");
            if let Ok(v) = g {
                ensure!(v.canon_nan() == w.canon_nan(), "wrong-value-lenient", "{}: gave {v:?}, means {w:?}", ctx());
            }
            Ok(())
        }
        (Some(Out::Err(w)), Ok(v)) => fail(format!("accepts-mismatch:{}", why(&w)), format!("{}: must be refused ({w:?}), but gave {v:?}", ctx())),
        (Some(Out::Err(w)), Err(e)) => {
            cx.label(&format!("refused-{}", why(&w)));
            ensure!(!e.text.is_empty(), "empty-error", "{}", ctx());
            Ok(())
        }
    }
}
fn why(w: &Why) -> &'static str {
    match w {
        Why::Type(_) => "type",
        Why::Range => "range",
        Why::Unknown(_) => "unknown",
        Why::Missing(_) => "missing",
        Why::Invariant => "invariant",
    }
}

const O: Opt = Opt { finite: true, max_elems: 4, depth: 4, str_max: 10 };

fn roots_where(f: fn(T) -> bool) -> Vec<usize> {
    (0..ROOTS.len()).filter(|i| f((ROOTS[*i].ty)())).collect()
}
thread_local! {
    static DEC: Vec<usize> = roots_where(decodable);
    static POL: Vec<usize> = roots_where(|t| decodable(t) && t.any(&mut |t| t.deny_unknown || t.container_default || matches!(&t.k, K::St(_, f) if f.iter().any(|f| f.rename.is_some() || f.default_v.is_some()))));
    static STRUCTS: Vec<usize> = roots_where(|t| decodable(t) && matches!(&t.k, K::St(Stk::Named, f) if !f.is_empty()));
    static ENC: Vec<usize> = roots_where(|t| !t.any(&mut |t| matches!(&t.k, K::Slice(_) | K::Array(..) | K::Arc(_) | K::Sc(Sk::Unit | Sk::Zst | Sk::Trk | Sk::Ip(_) | Sk::Path | Sk::Char)) || matches!(&t.k, K::Sc(Sk::UInt(128, _) | Sk::Int(128, _))) || matches!(&t.k, K::St(Stk::Tuple, _))));
    static INV: Vec<usize> = roots_where(|t| decodable(t) && t.invariant.is_some());
}
fn pick(k: &'static std::thread::LocalKey<Vec<usize>>, s: &mut Src) -> usize {
    k.with(|v| v[s.below(v.len())])
}

// ------------------------------------------------------------------ J01

struct Flaky {
    got: Vec<u8>,
    limit: usize,
    chunk: usize,
}
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let room = self.limit - self.got.len();
        if room == 0 && !b.is_empty() {
            return Err(std::io::Error::other("disk full"));
        }
        let n = b.len().min(room).min(self.chunk);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn j01(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 4) { s.below(ROOTS.len()) } else { pick(&ENC, s) };
    let t = (ROOTS[r].ty)();
    let finite = s.chance(3, 4);
    let v = gen_v(t, s, Opt { finite, ..O });
    cx.sample(|| format!("{}: {v:?}", t.name));
    cx.key(&format!("{}{v:?}", t.name));
    let mut out: Result<Vec<u8>, String> = Err(String::new());
    let mut res: R = Ok(());
    let cut = s.below(60);
    let chunk = s.range(1, 7);
    (t.with_peek)(&v, &mut |p| {
        let mut b = vec![];
        out = facet_json::peek_to_writer(&p, &mut b).map(|_| b).map_err(|e| e.to_string());
        if let Ok(full) = &out {
            // a writer that takes little at a time sees the same bytes
            let mut w = Flaky { got: vec![], limit: usize::MAX, chunk };
            let rr = facet_json::peek_to_writer(&p, &mut w);
            if rr.is_err() || w.got != *full {
                res = fail("short-writes", format!("{} {v:?}: short writes gave {rr:?} {}", t.name, show(&w.got)));
                return;
            }
            let limit = cut.min(full.len());
            let mut w = Flaky { got: vec![], limit, chunk: usize::MAX };
            let rr = facet_json::peek_to_writer(&p, &mut w);
            if rr.is_err() != (limit < full.len()) || w.got != full[..limit] {
                res = fail("write-error", format!("{} {v:?}: a writer failing after {limit} bytes of {} gave {rr:?} {}", t.name, full.len(), show(&w.got)));
                return;
            }
            let st = facet_json::peek_to_string(&p);
            if st.as_bytes() != &full[..] {
                res = fail("string-vs-writer", format!("{} {v:?}: {st:?} vs {}", t.name, show(full)));
            }
        }
    });
    res?;
    let enc = encoding(t, &v);
    match (&enc, &out) {
        (Enc::Refuse, Ok(b)) => return fail("emits-inexpressible", format!("{} {v:?}: JSON cannot express it, but got {}", t.name, show(b))),
        (Enc::Must(_), Err(e)) => return fail("refuses", format!("{} {v:?}: refused: {e}", t.name)),
        (_, Err(_)) => {
            cx.label("refused");
            // the typed entry point refuses as well
            let rr = (APIS[r].to_writer)(&v, &mut Vec::new());
            ensure!(rr.is_err(), "refuses-only-peek", "{} {v:?}: to_writer gave {rr:?}", t.name);
        }
        (_, Ok(b)) => {
            let Some(got) = doc::parse(b) else { return fail("malformed", format!("{} {v:?}: not JSON: {}", t.name, show(b))) };
            cx.label("emitted");
            if v.size() > 1 || matches!(v, V::S(_) | V::F64(_) | V::F32(_)) {
                cx.nontrivial();
            }
            if let Enc::Must(w) | Enc::May(w) = &enc {
                ensure!(same(t, &v, w, &got), "wrong-text", "{} {v:?}: denotes something else: {}", t.name, show(b));
            }
            // the typed entry points write the same thing (hash maps order themselves)
            let typed = (APIS[r].to_string)(&v);
            let mut wr = vec![];
            let rr = (APIS[r].to_writer)(&v, &mut wr);
            ensure!(rr.is_ok(), "typed-writer", "{} {v:?}: {rr:?}", t.name);
            for b2 in [typed.as_bytes(), &wr[..]] {
                let d2 = doc::parse(b2);
                let same2 = match (&enc, &d2) {
                    (Enc::Must(w) | Enc::May(w), Some(d2)) => same(t, &v, w, d2),
                    (_, d2) => d2.is_some(),
                };
                ensure!(same2, "typed-wrong-text", "{} {v:?}: {}", t.name, show(b2));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ J02

fn spelled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&DEC, s);
    let t = (ROOTS[r].ty)();
    let mut v = gen_v(t, s, O);
    if let Some(i) = t.invariant {
        for _ in 0..10 {
            if i(&v) {
                break;
            }
            v = small_v(t, s, O);
        }
    }
    let d = doc_of(t, &v);
    let st = Style::pick(s);
    let text = doc::write(&d, s, st);
    cx.sample(|| format!("{}: {text}", t.name));
    cx.key(&text);
    if v.size() > 1 || text.len() > 3 {
        cx.nontrivial();
    }
    judge(r, text.as_bytes(), s, cx)
}

fn roundtrip(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&DEC, s);
    let t = (ROOTS[r].ty)();
    let v = gen_v(t, s, O);
    let mut out = None;
    (t.with_peek)(&v, &mut |p| {
        let mut b = vec![];
        out = facet_json::peek_to_writer(&p, &mut b).ok().map(|_| b);
    });
    let Some(b) = out else {
        cx.label("not-encodable");
        return Ok(());
    };
    cx.sample(|| format!("{}: {}", t.name, show(&b)));
    cx.key(&show(&b));
    if v.size() > 1 {
        cx.nontrivial();
    }
    if t.invariant.is_some_and(|i| !i(&v)) {
        return judge(r, &b, s, cx);
    }
    match decode(r, &b, s)? {
        Err(e) => fail(format!("roundtrip-refused:{}", e.kind), format!("{} {v:?}: encoded as {}, refused: {}", t.name, show(&b), e.text)),
        Ok(g) => {
            // Some(None) is written as null
            let flat = flat(t, &v);
            ensure!(g == v || g == flat, "roundtrip", "{} {v:?}: encoded as {}, decoded as {g:?}", t.name, show(&b));
            Ok(())
        }
    }
}

/// `Some(None)` and `None` have one JSON form.
fn flat(t: T, v: &V) -> V {
    match (&t.k, v) {
        (K::Opt(e), V::O(Some(x))) => {
            let i = flat(e(), x);
            if i == V::none() { V::none() } else { V::some(i) }
        }
        (K::List(e), V::L(x)) => V::L(x.iter().map(|x| flat(e(), x)).collect()),
        (K::St(_, f), V::St(x)) => V::St(x.iter().zip(f).map(|(x, f)| flat(f.t(), x)).collect()),
        _ => v.clone(),
    }
}

// ------------------------------------------------------------------ J03

/// Replace some part of the document by something else.
fn mutate(d: &Doc, s: &mut Src) -> Doc {
    match d {
        Doc::Arr(a) if s.chance(3, 4) => {
            let mut a = a.clone();
            if a.is_empty() || s.chance(1, 4) {
                let i = s.below(a.len() + 1);
                let x = doc::any(s, 2);
                a.insert(i, x);
            } else {
                let i = s.below(a.len());
                a[i] = mutate(&a[i], s);
            }
            Doc::Arr(a)
        }
        Doc::Obj(o) if s.chance(7, 8) => {
            let mut o = o.clone();
            if o.is_empty() {
                o.push((s.string(4), doc::any(s, 2)));
                return Doc::Obj(o);
            }
            let i = s.below(o.len());
            match s.below(6) {
                0 => {
                    o.remove(i);
                }
                1 => {
                    o[i].0 = if s.bool() {
                        let k = o[i].0.clone();
                        s.near_name(&k)
                    } else {
                        s.string(4)
                    };
                }
                2 => {
                    let x = (o[i].0.clone(), doc::any(s, 2));
                    let j = s.below(o.len() + 1);
                    o.insert(j, x);
                }
                _ => o[i].1 = mutate(&o[i].1, s),
            }
            Doc::Obj(o)
        }
        Doc::Num(n) => match s.below(6) {
            0 => Doc::Num(format!("{n}{}", s.below(10))),
            1 => Doc::Num(format!("{}{}", n.split(['e', 'E']).next().unwrap(), s.pick(&["e1", "e-1", "e3", "E+20", "e400", "e-400", "e39"]))),
            2 => Doc::Num(if let Some(x) = n.strip_prefix('-') { x.to_string() } else { format!("-{n}") }),
            3 => {
                // around the limits of some width
                let b = *s.pick(&[8u32, 16, 32, 64, 128]);
                Doc::Num(if s.bool() {
                    let u = s.uint(b);
                    let k = s.below(3) as u128;
                    u.saturating_add(k).to_string()
                } else {
                    s.int(b).to_string()
                })
            }
            4 => Doc::Num(format!("{}.{}", n.split(['e', 'E', '.']).next().unwrap(), s.pick(&["0", "5", "25", "000", "0000000001"]))),
            _ => doc::any(s, 2),
        },
        Doc::Str(x) => match s.below(3) {
            0 => Doc::Str(s.string(8)),
            1 => Doc::Str(format!("{x} ")),
            _ => doc::any(s, 2),
        },
        _ => doc::any(s, 2),
    }
}

fn hurt(b: &mut Vec<u8>, s: &mut Src) {
    let n = s.range(1, 3);
    for _ in 0..n {
        let i = s.below(b.len() + 1);
        match s.below(8) {
            0 => b.truncate(i),
            1 if i < b.len() => {
                b.remove(i);
            }
            2 if i < b.len() => {
                let c = b[i];
                b.insert(i, c);
            }
            3 => {
                let c = *s.pick(b"{}[]\",:\\ -+.eE0123456789tfnu\n\0\x7f/'");
                b.insert(i, c);
            }
            4 if i < b.len() => b[i] = *s.pick(b"{}[]\",:\\ -+.eE01tfnu\n\0\x1f"),
            5 => {
                let w: &[u8] = s.pick::<&[u8]>(&[b"null", b"true", b"false", b"\\u00", b"\\ud800", b"\\udc00x", b"\\ud83d\\u0041", b"\\x", b",,", b"[]", b"{}", b"//x", b"01", b"1.", b".5", b"1e", b"-", b"+1", b"NaN", b"\"a\"", b"\xef\xbb\xbf", b"\xff", b"\xc3", b"\xed\xa0\x80", b"}", b"]", b" 1", b"tru", b"nul"]);
                for (k, c) in w.iter().enumerate() {
                    b.insert(i + k, *c);
                }
            }
            6 if i < b.len() => b[i] = s.draw(256) as u8,
            _ => {
                // a piece moved elsewhere
                let j = s.below(b.len() + 1);
                let (lo, hi) = (i.min(j), i.max(j).min(i.min(j) + 12));
                let piece: Vec<u8> = b[lo..hi].to_vec();
                let k = s.below(b.len() + 1);
                for (n, c) in piece.into_iter().enumerate() {
                    b.insert(k + n, c);
                }
            }
        }
    }
}

fn j03(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 3) { s.below(ROOTS.len()) } else { pick(&DEC, s) };
    let t = (ROOTS[r].ty)();
    let v = gen_v(t, s, Opt { max_elems: 3, ..O });
    let mut d = doc_of(t, &v);
    let how = s.below(6);
    if how <= 1 || how == 4 {
        for _ in 0..s.range(1, 2) {
            d = mutate(&d, s);
        }
    }
    if how == 5 {
        // some other type's document
        let o = (ROOTS[pick(&DEC, s)].ty)();
        d = doc_of(o, &gen_v(o, s, Opt { max_elems: 3, ..O }));
    }
    let st = Style::pick(s);
    let mut b = doc::write(&d, s, st).into_bytes();
    if (2..=4).contains(&how) {
        hurt(&mut b, s);
    }
    cx.sample(|| format!("{}: {}", t.name, show(&b)));
    cx.key(&format!("{}{}", t.name, show(&b)));
    cx.nontrivial();
    judge(r, &b, s, cx)
}

/// The tokens of a well-formed text.
fn tokens(b: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => {
                i += 1;
                continue;
            }
            b'{' | b'}' | b'[' | b']' | b',' | b':' => i += 1,
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            _ => {
                while i < b.len() && !b" \t\n\r{}[],:\"".contains(&b[i]) {
                    i += 1;
                }
            }
        }
        out.push((st, i.min(b.len())));
    }
    out
}

/// One wrong token, most often inside what is decoded or skipped as a whole.
fn token(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 3) { pick(&POL, s) } else { pick(&DEC, s) };
    let t = (ROOTS[r].ty)();
    let v = gen_v(t, s, Opt { max_elems: 3, ..O });
    let mut n = 0;
    let mut d = doc_of(t, &v);
    if s.chance(2, 3) {
        d = meddle(t, &d, s, &mut n);
    }
    let st = Style::pick(s);
    let mut b = doc::write(&d, s, st).into_bytes();
    let tk = tokens(&b);
    let punct: Vec<usize> = (0..tk.len()).filter(|i| b"{}[],:".contains(&b[tk[*i].0])).collect();
    let i = if !punct.is_empty() && s.chance(4, 5) { *s.pick(&punct) } else { s.below(tk.len()) };
    let (lo, hi) = tk[i];
    let extra: &[u8] = s.pick::<&[u8]>(&[b",", b",", b":", b"[", b"]", b"{", b"}", b"null", b"0", b"\"\"", b"\"\":", b"true", b",,", b";", b"-", b"."]);
    let old: Vec<u8> = b[lo..hi].to_vec();
    let how = match s.below(6) {
        0 => {
            b.splice(lo..lo, extra.iter().copied());
            "before"
        }
        1 => {
            b.splice(hi..hi, extra.iter().copied());
            "after"
        }
        2 => {
            b.splice(lo..hi, std::iter::empty());
            "without"
        }
        3 => {
            b.splice(lo..hi, extra.iter().copied());
            "instead"
        }
        4 => {
            let two: Vec<u8> = old.iter().chain(b" ").chain(&old).copied().collect();
            b.splice(lo..hi, two);
            "twice"
        }
        _ => {
            let (lo2, hi2) = tk[s.below(tk.len())];
            let other: Vec<u8> = b[lo2..hi2].to_vec();
            b.splice(lo..hi, other);
            "swapped"
        }
    };
    cx.label(how);
    if n > 0 {
        cx.label("with unknown keys");
    }
    cx.sample(|| format!("{}: {}", t.name, show(&b)));
    cx.key(&format!("{}{}", t.name, show(&b)));
    if doc::parse(&b).is_none() {
        cx.nontrivial();
    }
    judge(r, &b, s, cx)
}

fn soup(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(1, 3) { s.below(ROOTS.len()) } else { pick(&DEC, s) };
    let t = (ROOTS[r].ty)();
    // token soup, with the type's own keys
    let mut keys: Vec<&str> = vec![];
    t.any(&mut |t| {
        if let K::St(_, f) = &t.k {
            keys.extend(f.iter().map(|f| f.key()));
        }
        false
    });
    let mut b = vec![];
    let mut n = 0;
    while s.more(n, 40, 15, 16) {
        n += 1;
        match s.below(12) {
            0 => b.extend_from_slice(b"{"),
            1 => b.extend_from_slice(b"}"),
            2 => b.extend_from_slice(b"["),
            3 => b.extend_from_slice(b"]"),
            4 => b.extend_from_slice(b","),
            5 => b.extend_from_slice(b":"),
            6 if !keys.is_empty() => {
                let k = *s.pick(&keys);
                b.extend_from_slice(doc::write(&Doc::Str(k.into()), s, Style { ws: 0, esc: 0, shuffle: false, nums: false }).as_bytes());
                if s.bool() {
                    b.push(b':');
                }
            }
            7 => b.extend_from_slice(s.int(32).to_string().as_bytes()),
            8 => {
                let x = doc::any(s, 1);
                b.extend_from_slice(doc::write(&x, s, Style { ws: 1, esc: 1, shuffle: false, nums: true }).as_bytes());
            }
            9 => b.extend_from_slice(s.pick::<&[u8]>(&[b"null", b"true", b"false", b"nul", b"\"", b"\\", b"-", b"1e", b"0.", b" "])),
            10 => b.push(s.draw(256) as u8),
            _ => {
                // deep nesting
                let k = if s.chance(1, 400) { 20000 } else { *s.pick(&[2usize, 5, 10, 40]) };
                let c = *s.pick(&["[", "{\"a\":", "[[", "]"]);
                for _ in 0..k {
                    b.extend_from_slice(c.as_bytes());
                }
            }
        }
    }
    cx.sample(|| format!("{}: {}", t.name, show(&b)));
    if b.len() > 2 {
        cx.nontrivial();
    }
    judge(r, &b, s, cx)
}

// ------------------------------------------------------------------ J04

/// Leave out, add and rename keys, at any nesting.
fn meddle(t: T, d: &Doc, s: &mut Src, n: &mut u32) -> Doc {
    match (&t.k, d) {
        (K::Opt(e), d) if *d != Doc::Null => meddle(e(), d, s, n),
        (K::List(e), Doc::Arr(a)) => Doc::Arr(a.iter().map(|x| meddle(e(), x, s, n)).collect()),
        (K::St(_, fs), Doc::Obj(o)) => {
            let mut out: Vec<(String, Doc)> = vec![];
            for (f, (k, x)) in fs.iter().zip(o) {
                let has = f.default_v.is_some() || t.container_default;
                let x = meddle(f.t(), x, s, n);
                if s.chance(if has { 2 } else { 1 }, if has { 5 } else { 60 }) {
                    *n += 1;
                    continue;
                }
                if f.rename.is_some() && s.chance(1, 10) {
                    *n += if fs.iter().any(|g| g.key() == f.name) { 1000 } else { 1 };
                    out.push((f.name.to_string(), x));
                    continue;
                }
                out.push((k.clone(), x));
            }
            let unk = if t.deny_unknown { (1, 12) } else { (1, 3) };
            while s.more(out.len(), fs.len() + 3, unk.0, unk.1) {
                *n += 1;
                let k = match s.below(4) {
                    0 => s.string(5),
                    1 if !fs.is_empty() => {
                        // close to a real key
                        let f = &fs[s.below(fs.len())];
                        let k = f.key();
                        if s.chance(1, 4) { f.name.to_string() } else { s.near_name(k) }
                    }
                    _ => s.string(3),
                };
                if fs.iter().any(|f| f.key() == k) {
                    continue;
                }
                let mut x = doc::any(s, 3);
                if s.chance(1, 40) {
                    // far down
                    for _ in 0..s.below(300) {
                        x = if s.chance(3, 4) { Doc::Arr(vec![x]) } else { Doc::Obj(vec![(s.string(2), x)]) };
                    }
                }
                let i = s.below(out.len() + 1);
                out.insert(i, (k, x));
            }
            Doc::Obj(out)
        }
        _ => d.clone(),
    }
}

fn j04(s: &mut Src, cx: &mut Ctx) -> R {
    let r = if s.chance(3, 4) { pick(&POL, s) } else { pick(&STRUCTS, s) };
    let t = (ROOTS[r].ty)();
    let v = gen_v(t, s, Opt { max_elems: 3, ..O });
    let mut n = 0;
    let d = meddle(t, &doc_of(t, &v), s, &mut n);
    let st = Style::pick(s);
    let text = doc::write(&d, s, st);
    cx.sample(|| format!("{}: {text}", t.name));
    cx.key(&format!("{}{text}", t.name));
    if n > 0 {
        cx.nontrivial();
    }
    judge(r, text.as_bytes(), s, cx)?;
    // and by name, when there is only one thing wrong
    if let (Out::Err(w), true) = (root_meaning(t, &d), n < 1000) {
        if let Err(e) = decode(r, text.as_bytes(), s)? {
            if e.kind == "missing" {
                let ok = t.any(&mut |t| matches!(&t.k, K::St(_, f) if f.iter().any(|f| f.name == e.name || f.key() == e.name)));
                ensure!(ok, "missing-name", "{text}: names {:?}", e.name);
            }
            if let (Why::Missing(m), true) = (&w, single_fault(t, &d)) {
                ensure!(e.kind == "missing", "missing-kind", "{} from {text}: {m:?} is missing, but the error is {} {}", t.name, e.kind, e.text);
                ensure!(
                    m.contains(&&*e.name) || t.any(&mut |t| matches!(&t.k, K::St(_, f) if f.iter().any(|f| m.contains(&f.name) && f.key() == e.name))),
                    "missing-name",
                    "{} from {text}: {m:?} is missing, but the error names {:?}",
                    t.name,
                    e.name
                );
            }
            if let (Why::Unknown(k), true) = (&w, single_fault(t, &d)) {
                ensure!(e.kind == "unknown" && e.name == *k, "unknown-name", "{} from {text}: {k:?} is unknown, but the error is {} {:?}", t.name, e.kind, e.name);
            }
        }
    }
    Ok(())
}

/// Exactly one object is at fault, in one way (so it is clear what the error must say).
fn single_fault(t: T, d: &Doc) -> bool {
    fn count(t: T, d: &Doc) -> usize {
        match (&t.k, d) {
            (K::Opt(e), d) if *d != Doc::Null => count(e(), d),
            (K::List(e), Doc::Arr(a)) => a.iter().map(|x| count(e(), x)).sum(),
            (K::St(_, fs), Doc::Obj(o)) => {
                let mut n = 0;
                if t.deny_unknown {
                    n += o.iter().filter(|(k, _)| !fs.iter().any(|f| f.key() == k)).count();
                }
                let missing = fs.iter().filter(|f| f.default_v.is_none() && !t.container_default && !o.iter().any(|(k, _)| k == f.key())).count();
                n += missing.min(1);
                for f in fs {
                    if let Some((_, x)) = o.iter().find(|(k, _)| k == f.key()) {
                        n += count(f.t(), x);
                    }
                }
                n
            }
            _ => 0,
        }
    }
    count(t, d) == 1
}

// ------------------------------------------------------------------ W04

fn w04(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&INV, s);
    let t = (ROOTS[r].ty)();
    let (v, holds) = near_invariant(t, s, O);
    cx.label(if holds { "holds" } else { "broken" });
    let mut n = 0;
    let d = meddle(t, &doc_of(t, &v), s, &mut n);
    let st = Style::pick(s);
    let text = doc::write(&d, s, st);
    cx.sample(|| format!("{}: {text}", t.name));
    cx.key(&format!("{}{text}", t.name));
    cx.nontrivial();
    judge(r, text.as_bytes(), s, cx)
}

pub const J01: Prop = Prop {
    id: "J01",
    targets: &[Target { name: "encode", quick: 400_000, thorough: 6_000_000, rule: "a random value of a random root type, encoded through every entry point (also into writers that take a few bytes at a time or fail midway) and read back by an independent JSON reader. Non-trivial: emitted and either compound, a string or a float", f: j01 }],
};
pub const J02: Prop = Prop {
    id: "J02",
    targets: &[
        Target { name: "spelled", quick: 400_000, thorough: 6_000_000, rule: "the JSON of a random value of a decodable type in a random spelling (whitespace, key order, escapes, number notation), decoded. Non-trivial: compound or longer than 3 characters", f: spelled },
        Target { name: "roundtrip", quick: 300_000, thorough: 4_000_000, rule: "encoder output of a random value of a decodable type, decoded. Non-trivial: compound value", f: roundtrip },
    ],
};
pub const J03: Prop = Prop {
    id: "J03",
    targets: &[
        Target { name: "mutated", quick: 500_000, thorough: 8_000_000, rule: "the JSON of a value with structural or textual damage, or of another type, decoded into any type under the tracking allocator; an independent reader decides whether it must be refused. Every case counts", f: j03 },
        Target { name: "token", quick: 400_000, thorough: 6_000_000, rule: "the JSON of a value, with unknown keys and their values, with exactly one token added, dropped, doubled or replaced. Non-trivial: no longer well-formed", f: token },
        Target { name: "soup", quick: 200_000, thorough: 3_000_000, rule: "random JSON tokens, the type's keys, bytes and deep nesting. Non-trivial: longer than 2 bytes", f: soup },
    ],
};
pub const J04: Prop = Prop {
    id: "J04",
    targets: &[Target { name: "policies", quick: 500_000, thorough: 8_000_000, rule: "documents with keys left out, renamed, added (with arbitrary values) and reordered at any nesting. Non-trivial: at least one key meddled with", f: j04 }],
};
pub const W04: Prop = Prop {
    id: "W04",
    targets: &[Target { name: "json", quick: 80_000, thorough: 2_000_000, rule: "JSON of a value of a type with invariants, about half of them breaking one, decoded: refused iff an invariant (called natively) does not hold. Every case counts", f: w04 }],
};
#[allow(unused)]
fn _unused(_: Arc<u8>, _: HashMap<u8, u8>, _: BTreeMap<u8, u8>, _: Cow<str>, _: &Root) {}
