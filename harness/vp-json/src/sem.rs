//! What a JSON document means for a type, and what JSON a value is.
use crate::doc::{Doc, integral};
use corpus::*;

/// What decoding must do.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// give exactly this
    Must(V),
    /// give exactly this or refuse
    May(V),
    /// refuse
    Err(Why),
    /// anything but a panic (the decoder makes no promise for this type)
    Any,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Type(&'static str),
    Range,
    Unknown(String),
    Missing(Vec<&'static str>),
    Invariant,
}

/// Parts of a compound: the worst wins.
fn join(parts: Vec<Out>, f: impl FnOnce(Vec<V>) -> V) -> Out {
    let mut may = false;
    let mut any = false;
    let mut v = vec![];
    // an error in any part is an error of the whole; which one is reported first is not fixed
    for p in parts {
        match p {
            Out::Err(w) => return Out::Err(w),
            Out::Any => any = true,
            Out::May(x) => {
                may = true;
                v.push(x)
            }
            Out::Must(x) => v.push(x),
        }
    }
    if any {
        Out::Any
    } else if may {
        Out::May(f(v))
    } else {
        Out::Must(f(v))
    }
}

fn soften(o: Out) -> Out {
    match o {
        Out::Must(v) => Out::May(v),
        o => o,
    }
}

pub fn int_of(tok: &str, bits: u32, nz: bool, signed: bool) -> Out {
    let Some((neg, d)) = integral(tok) else { return Out::Err(Why::Range) };
    let zero = d == "0";
    if nz && zero {
        return Out::Err(Why::Range);
    }
    let r = if signed {
        format!("{}{d}", if neg { "-" } else { "" }).parse::<i128>().ok().and_then(|i| {
            let min = i128::MIN >> (128 - bits);
            let max = i128::MAX >> (128 - bits);
            if i < min || i > max { None } else { Some(V::I(i)) }
        })
    } else if neg && !zero {
        None
    } else {
        d.parse::<u128>().ok().and_then(|u| if bits < 128 && u >> bits != 0 { None } else { Some(V::U(u)) })
    };
    match r {
        None => Out::Err(Why::Range),
        // "-0" for an integer is a corner the format leaves open
        Some(v) if neg && zero => Out::May(v),
        Some(v) => Out::Must(v),
    }
}

pub fn meaning(t: T, d: &Doc) -> Out {
    match (&t.k, d) {
        (K::Opt(_), Doc::Null) => Out::Must(V::none()),
        (K::Opt(e), d) => join(vec![meaning(e(), d)], |mut v| V::some(v.pop().unwrap())),
        (K::Sc(sk), d) => scalar(*sk, d),
        (K::List(e), Doc::Arr(a)) => join(a.iter().map(|x| meaning(e(), x)).collect(), V::L),
        (K::List(_), _) => Out::Err(Why::Type("list")),
        (K::St(_, fs), Doc::Obj(o)) => object(t, fs, o),
        // Ratio has a textual form of its own
        (K::St(..), Doc::Str(x)) if t.name == "Ratio" => match x.parse::<Ratio>() {
            Ok(r) => Out::May(r.to_v()),
            Err(_) => Out::Err(Why::Type("struct")),
        },
        (K::St(Stk::Tuple, _), Doc::Arr(_)) | (K::St(Stk::TupleStruct, _), Doc::Arr(_)) => Out::Any,
        (K::St(Stk::Tuple | Stk::TupleStruct, f), _) if f.len() == 1 => Out::Any,
        (K::St(Stk::Unit, _), Doc::Null) => Out::Any,
        (K::St(..), _) => Out::Err(Why::Type("struct")),
        _ => Out::Any,
    }
}

fn scalar(sk: Sk, d: &Doc) -> Out {
    let te = || Out::Err(Why::Type("scalar"));
    match (sk, d) {
        (Sk::Bool, Doc::Bool(b)) => Out::Must(V::B(*b)),
        (Sk::Bool, Doc::Str(s)) => s.parse::<bool>().map(|b| Out::May(V::B(b))).unwrap_or_else(|_| te()),
        (Sk::UInt(b, nz), Doc::Num(n)) => int_of(n, b, nz, false),
        (Sk::Int(b, nz), Doc::Num(n)) => int_of(n, b, nz, true),
        // a number spelled inside a string: its text may be understood
        (Sk::UInt(b, nz), Doc::Str(x)) => match x.parse::<u128>() {
            Ok(u) => soften(int_of(&u.to_string(), b, nz, false)),
            Err(_) => te(),
        },
        (Sk::Int(b, nz), Doc::Str(x)) => match x.parse::<i128>() {
            Ok(u) => soften(int_of(&u.to_string(), b, nz, true)),
            Err(_) => te(),
        },
        (Sk::F32, Doc::Num(n)) => match n.parse::<f32>() {
            Ok(f) if f.is_finite() => Out::Must(V::f32(f)),
            _ => Out::Err(Why::Range),
        },
        (Sk::F64, Doc::Num(n)) => match n.parse::<f64>() {
            Ok(f) if f.is_finite() => Out::Must(V::f64(f)),
            _ => Out::Err(Why::Range),
        },
        (Sk::F32, Doc::Str(x)) => x.parse::<f32>().map(|f| Out::May(V::f32(f))).unwrap_or_else(|_| te()),
        (Sk::F64, Doc::Str(x)) => x.parse::<f64>().map(|f| Out::May(V::f64(f))).unwrap_or_else(|_| te()),
        (Sk::Char, Doc::Str(x)) => {
            let mut c = x.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Out::Must(V::C(c)),
                _ => te(),
            }
        }
        (Sk::Str, Doc::Str(x)) => Out::Must(V::S(x.clone())),
        (Sk::Path, Doc::Str(x)) => Out::Must(V::S(x.clone())),
        (Sk::Ip(w), Doc::Str(x)) => match ip(w, x) {
            Some(v) => Out::Must(V::S(v)),
            None => te(),
        },
        (Sk::Unit | Sk::Zst | Sk::Trk, _) => Out::Any,
        _ => te(),
    }
}

fn ip(w: u8, x: &str) -> Option<String> {
    use std::net::*;
    Some(match w {
        4 => x.parse::<Ipv4Addr>().ok()?.to_string(),
        6 => x.parse::<Ipv6Addr>().ok()?.to_string(),
        0 => x.parse::<IpAddr>().ok()?.to_string(),
        _ => x.parse::<SocketAddr>().ok()?.to_string(),
    })
}

fn object(t: T, fs: &'static [Fd], o: &[(String, Doc)]) -> Out {
    let mut parts = vec![];
    let mut dup = false;
    let mut deep = false;
    for (k, d) in o {
        if !fs.iter().any(|f| f.key() == k) {
            if t.deny_unknown {
                return Out::Err(Why::Unknown(k.clone()));
            }
            // how deep a value can be skipped is not promised
            deep |= d.depth() > 100;
        }
    }
    let dflt = if t.container_default { t.default.map(|f| f()) } else { None };
    let mut missing = vec![];
    for (i, f) in fs.iter().enumerate() {
        let mut hits = o.iter().filter(|(k, _)| k == f.key());
        let first = hits.next();
        dup |= hits.next().is_some();
        match first {
            Some((_, d)) => {
                let m = if matches!(&f.t().k, K::Sc(Sk::Str)) && !is_string(f.t()) { soften(meaning(f.t(), d)) } else { meaning(f.t(), d) };
                parts.push(m)
            }
            None => match (&dflt, f.default_v) {
                (Some(V::St(x)), _) => parts.push(Out::Must(x[i].clone())),
                (_, Some(dv)) => parts.push(Out::Must(dv())),
                _ => missing.push(f.name),
            },
        }
    }
    // what a repeated key means is not promised
    if dup {
        return Out::Any;
    }
    if !missing.is_empty() {
        return Out::Err(Why::Missing(missing));
    }
    let r = join(parts, V::St);
    if deep { soften(r) } else { r }
}

fn is_string(t: T) -> bool {
    t.name == "String"
}

/// The decoder handles the whole type (so that every fitting document must be accepted).
pub fn decodable(t: T) -> bool {
    !t.any(&mut |t| match &t.k {
        K::Sc(Sk::Unit | Sk::Zst | Sk::Trk) => true,
        K::Sc(Sk::Str) => t.name != "String",
        K::Sc(Sk::Path) => !t.name.ends_with("PathBuf"),
        K::Sc(_) | K::St(..) | K::List(_) | K::Opt(_) => false,
        _ => true,
    })
}

/// The root's meaning, with its invariants. Borrowed strings cannot be promised.
pub fn root_meaning(t: T, d: &Doc) -> Out {
    let o = meaning(t, d);
    let o = if t.any(&mut |t| matches!(&t.k, K::Sc(Sk::Str)) && !is_string(t) || matches!(&t.k, K::Sc(Sk::Path)) && !t.name.ends_with("PathBuf")) { soften(o) } else { o };
    match (o, t.invariant) {
        (Out::Must(v) | Out::May(v), Some(i)) if !i(&v) => Out::Err(Why::Invariant),
        (o, _) => o,
    }
}

// ------------------------------------------------------------------ encoding

pub enum Enc {
    Must(Doc),
    /// emit this or refuse
    May(Doc),
    Refuse,
    /// emit something well-formed, or refuse
    Any,
}

struct E {
    may: bool,
    refuse: bool,
    any: bool,
}

pub fn encoding(t: T, v: &V) -> Enc {
    let mut e = E { may: false, refuse: false, any: false };
    let d = e.go(t, v);
    if e.refuse {
        Enc::Refuse
    } else if e.any {
        Enc::Any
    } else if e.may {
        Enc::May(d)
    } else {
        Enc::Must(d)
    }
}

/// The JSON form a decoder is to be fed for this value (also for types the encoder refuses).
pub fn doc_of(t: T, v: &V) -> Doc {
    E { may: false, refuse: false, any: false }.go(t, v)
}

impl E {
    fn go(&mut self, t: T, v: &V) -> Doc {
        match (&t.k, v) {
            (K::Sc(sk), v) => match (sk, v) {
                (Sk::Unit | Sk::Zst, _) => {
                    self.any = true;
                    Doc::Null
                }
                (Sk::Trk, V::U(u)) => {
                    self.any = true;
                    Doc::Num(u.to_string())
                }
                (_, V::B(b)) => Doc::Bool(*b),
                (Sk::UInt(b, _), V::U(u)) => {
                    self.may |= *b > 64;
                    Doc::Num(u.to_string())
                }
                (Sk::Int(b, _), V::I(u)) => {
                    self.may |= *b > 64;
                    Doc::Num(u.to_string())
                }
                (_, V::F32(b)) => {
                    let f = f32::from_bits(*b);
                    self.refuse |= !f.is_finite();
                    Doc::Num(format!("{f:?}"))
                }
                (_, V::F64(b)) => {
                    let f = f64::from_bits(*b);
                    self.refuse |= !f.is_finite();
                    Doc::Num(format!("{f:?}"))
                }
                (_, V::C(c)) => {
                    self.may = true;
                    Doc::Str(c.to_string())
                }
                (Sk::Ip(_) | Sk::Path, V::S(s)) => {
                    self.may = true;
                    Doc::Str(s.clone())
                }
                (_, V::S(s)) => Doc::Str(s.clone()),
                _ => panic!("harness: {v:?}"),
            },
            (K::Opt(_), V::O(None)) => Doc::Null,
            (K::Opt(e), V::O(Some(x))) => self.go(e(), x),
            (K::List(e), V::L(x)) => Doc::Arr(x.iter().map(|x| self.go(e(), x)).collect()),
            (K::Slice(e) | K::Array(e, _), V::L(x)) => {
                self.may = true;
                Doc::Arr(x.iter().map(|x| self.go(e(), x)).collect())
            }
            (K::Arc(e), V::P(x)) => {
                self.may = true;
                self.go(e(), x)
            }
            (K::St(k, fs), V::St(x)) => {
                // tuples as an object of numbered fields, or refused
                self.may |= *k == Stk::Tuple;
                self.fields(fs, x)
            }
            (K::En(_, vs), V::En(i, x)) => {
                let vd = &vs[*i];
                if vd.fields.is_empty() {
                    return Doc::Str(vd.name.into());
                }
                let inner = match vd.kind {
                    Vk::Named => self.fields(&vd.fields, x),
                    _ if x.len() == 1 => self.go(vd.fields[0].t(), &x[0]),
                    _ => Doc::Arr(x.iter().zip(&vd.fields).map(|(x, f)| self.go(f.t(), x)).collect()),
                };
                Doc::Obj(vec![(vd.name.into(), inner)])
            }
            (K::Map(_, k, e), V::M(m)) => {
                let mut o = vec![];
                for (kv, x) in m {
                    let key = match (&k().k, kv) {
                        (K::Sc(Sk::Unit | Sk::Zst | Sk::Trk | Sk::F32 | Sk::F64), _) => {
                            self.any = true;
                            String::new()
                        }
                        (_, V::S(s)) => s.clone(),
                        (_, V::B(b)) => b.to_string(),
                        (_, V::U(u)) => u.to_string(),
                        (_, V::I(u)) => u.to_string(),
                        (_, V::C(c)) => c.to_string(),
                        _ => {
                            // compound keys: not expressible
                            self.any = true;
                            String::new()
                        }
                    };
                    o.push((key, self.go(e(), x)));
                }
                Doc::Obj(o)
            }
            _ => panic!("harness: encoding {v:?} as {}", t.name),
        }
    }
    fn fields(&mut self, fs: &[Fd], x: &[V]) -> Doc {
        Doc::Obj(fs.iter().zip(x).map(|(f, x)| (f.key().to_string(), self.go(f.t(), x))).collect())
    }
}

/// Is `got` the document `want`, for a value of this type? (maps are unordered; floats are compared as numbers)
pub fn same(t: T, v: &V, want: &Doc, got: &Doc) -> bool {
    match (&t.k, v, want, got) {
        (K::Sc(_), V::F32(b), _, Doc::Num(g)) => g.parse::<f32>().map(|f| f.to_bits()) == Ok(*b),
        (K::Sc(_), V::F64(b), _, Doc::Num(g)) => g.parse::<f64>().map(|f| f.to_bits()) == Ok(*b),
        (K::Sc(_), _, Doc::Num(w), Doc::Num(g)) => w == g,
        (K::Sc(_), ..) => want == got,
        (K::Opt(_), V::O(None), ..) => want == got,
        (K::Opt(e) | K::Arc(e), V::O(Some(x)) | V::P(x), ..) => same(e(), x, want, got),
        (K::List(e) | K::Slice(e) | K::Array(e, _), V::L(x), Doc::Arr(w), Doc::Arr(g)) => w.len() == g.len() && x.iter().zip(w).zip(g).all(|((x, w), g)| same(e(), x, w, g)),
        (K::St(_, fs), V::St(x), Doc::Obj(w), Doc::Obj(g)) => same_fields(fs, x, w, g),
        (K::En(_, vs), V::En(i, x), w, g) => match (w, g) {
            (Doc::Str(w), Doc::Str(g)) => w == g,
            (Doc::Obj(w), Doc::Obj(g)) if w.len() == 1 && g.len() == 1 && w[0].0 == g[0].0 => {
                let vd = &vs[*i];
                match (vd.kind, &w[0].1, &g[0].1) {
                    (Vk::Named, Doc::Obj(w), Doc::Obj(g)) => same_fields(&vd.fields, x, w, g),
                    (Vk::Named, ..) => false,
                    (_, w, g) if x.len() == 1 => same(vd.fields[0].t(), &x[0], w, g),
                    (_, Doc::Arr(w), Doc::Arr(g)) => w.len() == g.len() && x.iter().zip(&vd.fields).zip(w.iter().zip(g)).all(|((x, f), (w, g))| same(f.t(), x, w, g)),
                    _ => false,
                }
            }
            _ => false,
        },
        (K::Map(_, _, e), V::M(m), Doc::Obj(w), Doc::Obj(g)) => {
            w.len() == g.len()
                && m.iter().zip(w).all(|((_, x), (k, w))| {
                    let mut h = g.iter().filter(|(gk, _)| gk == k);
                    match (h.next(), h.next()) {
                        (Some((_, g)), None) => same(e(), x, w, g),
                        _ => false,
                    }
                })
        }
        _ => false,
    }
}
fn same_fields(fs: &[Fd], x: &[V], w: &[(String, Doc)], g: &[(String, Doc)]) -> bool {
    w.len() == g.len() && fs.iter().zip(x).zip(w.iter().zip(g)).all(|((f, x), (w, g))| w.0 == g.0 && same(f.t(), x, &w.1, &g.1))
}
