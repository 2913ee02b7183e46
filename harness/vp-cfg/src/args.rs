//! A01.
use crate::api::*;
use corpus::*;
use vpcore::alloc::Scope;
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail, guarded};

fn supported(t: T) -> bool {
    fits(t) && t.invariant.is_none()
}
/// What arguments can be parsed into.
pub fn fits(t: T) -> bool {
    let K::St(_, fs) = &t.k else { return false };
    !fs.is_empty()
        && fs.len() <= 64
        && fs.iter().all(|f| {
            f.rename.is_none()
                && f.default_v.is_none()
                && match &f.t().k {
                    K::Sc(Sk::Bool | Sk::UInt(..) | Sk::Int(..) | Sk::F32 | Sk::F64 | Sk::Char | Sk::Ip(_)) => true,
                    K::Sc(Sk::Str) => f.t().name == "String",
                    _ => false,
                }
        })
        && !t.container_default
}
thread_local! {
    static GOOD: Vec<usize> = (0..ROOTS.len()).filter(|i| supported((ROOTS[*i].ty)())).collect();
    static RICH: Vec<usize> = (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); supported(t) && t.name.starts_with("Args") }).collect();
}
fn pick_good(s: &mut Src) -> usize {
    if s.chance(2, 3) { pick(&RICH, s) } else { pick(&GOOD, s) }
}
pub fn is_bool(t: T) -> bool {
    matches!(t.k, K::Sc(Sk::Bool))
}

pub fn text_of(v: &V, s: &mut Src) -> String {
    match v {
        V::B(b) => {
            // in any case of letters
            let w = b.to_string();
            match s.below(6) {
                0 => w.to_uppercase(),
                1 => w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                2 => w.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect(),
                _ => w,
            }
        }
        V::U(n) => format!("{}{}{n}", if s.chance(1, 8) { "+" } else { "" }, if s.chance(1, 8) { "0" } else { "" }),
        V::I(n) => {
            let z = if s.chance(1, 8) { "00" } else { "" };
            if *n < 0 { format!("-{z}{}", n.unsigned_abs()) } else { format!("{z}{n}") }
        }
        V::F32(b) => {
            let f = f32::from_bits(*b);
            match s.below(3) {
                0 => format!("{f}"),
                1 => format!("{f:?}"),
                _ => format!("{f:e}"),
            }
        }
        V::F64(b) => {
            let f = f64::from_bits(*b);
            match s.below(3) {
                0 => format!("{f}"),
                1 => format!("{f:?}"),
                _ => format!("{f:e}"),
            }
        }
        V::C(c) => c.to_string(),
        V::S(x) => x.clone(),
        _ => unreachable!(),
    }
}

/// One argument: the words, and whether it is positional.
#[derive(Clone, Debug)]
pub struct Arg {
    words: Vec<String>,
    field: usize,
    pos: bool,
}

fn make(t: T, s: &mut Src) -> (V, Vec<Arg>) {
    let v = gen_v(t, s, Opt { finite: false, max_elems: 3, depth: 3, str_max: 10 });
    make_from(t, v, s)
}
/// Arguments for (something close to) a value, and the value.
pub fn make_from(t: T, v: V, s: &mut Src) -> (V, Vec<Arg>) {
    let K::St(_, fs) = &t.k else { unreachable!() };
    let V::St(parts) = v else { unreachable!() };
    let mut vals = vec![];
    let mut args = vec![];
    for (i, (f, mut v)) in fs.iter().zip(parts).enumerate() {
        if f.positional {
            if let V::S(x) = &mut v {
                while x.starts_with("--") {
                    x.remove(0);
                }
            }
            if let V::F32(_) | V::F64(_) = v {}
            let w = text_of(&v, s);
            args.push(Arg { words: vec![w], field: i, pos: true });
        } else if is_bool(f.t()) {
            v = V::B(true);
            args.push(Arg { words: vec![format!("--{}", f.name)], field: i, pos: false });
        } else {
            if f.t().name == "String" && s.chance(1, 6) {
                // looks like an argument, is a value
                if let V::S(x) = &mut v {
                    *x = match s.below(3) {
                        0 => format!("--{x}"),
                        1 => format!("--{}", fs[s.below(fs.len())].name),
                        _ => format!("-{x}"),
                    };
                }
            }
            let w = text_of(&v, s);
            args.push(Arg { words: vec![format!("--{}", f.name), w], field: i, pos: false });
        }
        vals.push(v);
    }
    (V::St(vals), args)
}
/// Any order that keeps the positional ones in theirs.
pub fn interleave(args: &[Arg], s: &mut Src) -> Vec<Arg> {
    let mut named: Vec<Arg> = args.iter().filter(|a| !a.pos).cloned().collect();
    s.shuffle(&mut named);
    for p in args.iter().filter(|a| a.pos).rev() {
        // positional ones in front of those placed before
        let limit = named.iter().position(|a| a.pos).unwrap_or(named.len());
        let i = limit - s.below(limit + 1);
        named.insert(i, p.clone());
    }
    named
}
pub fn words(args: &[Arg]) -> Vec<String> {
    args.iter().flat_map(|a| a.words.iter().cloned()).collect()
}
pub fn run(r: usize, w: &[String]) -> Result<V, (String, String)> {
    let w: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
    guarded(|| (APIS[r].args)(&w))
}

fn filled(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_good(s);
    let t = (ROOTS[r].ty)();
    let (v, args) = make(t, s);
    let w = words(&interleave(&args, s));
    cx.sample(|| format!("{}: {w:?}", t.name));
    cx.key(&format!("{}{w:?}", t.name));
    if args.len() > 1 {
        cx.nontrivial();
    }
    let refs: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
    let sc = Scope::begin();
    let got = guarded(|| (APIS[r].args)(&refs));
    let rep = sc.end();
    match got {
        Ok(g) => {
            ensure!(g.canon_nan() == v.canon_nan(), "wrong-value", "{} from {w:?}: gave {}, means {}", t.name, short(&g), short(&v));
            ensure!(rep.clean(), format!("memory:{}", rep.kind()), "{} from {w:?}: allocator saw {rep:?}", t.name);
        }
        Err(p) => return fail("refused", format!("{} from {w:?}: means {}, panicked: {} at {}", t.name, short(&v), p.0, p.1)),
    }
    Ok(())
}

fn unparsable(t: T, s: &mut Src) -> Option<&'static str> {
    Some(match &t.k {
        K::Sc(Sk::UInt(_, nz)) => *s.pick(&["-1", "", "x", "1.5", " 1", "340282366920938463463374607431768211456", "0x1", if *nz { "0" } else { "1_0" }]),
        K::Sc(Sk::Int(_, nz)) => *s.pick(&["", "x", "1.5", "1 ", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "-", if *nz { "0" } else { "0b1" }]),
        K::Sc(Sk::F32 | Sk::F64) => *s.pick(&["", "x", "1,5", "1e", "--", "0x1"]),
        K::Sc(Sk::Char) => *s.pick(&["", "ab", "é "]),
        K::Sc(Sk::Ip(_)) => *s.pick(&["", "1.2.3", "::g", "256.1.1.1", "1.2.3.4:99999", "localhost"]),
        K::Sc(Sk::Bool) => *s.pick(&["", "yes", "no", "0", "1", "on", "t", "f", "tru", "true ", " false", "truee", "not"]),
        _ => return None,
    })
}
fn refused(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_good(s);
    let t = (ROOTS[r].ty)();
    let K::St(_, fs) = &t.k else { unreachable!() };
    let (v, args) = make(t, s);
    let mut args = interleave(&args, s);
    let why = match s.below(6) {
        0 => {
            // a value its field cannot hold
            let i = s.below(args.len());
            let f = &fs[args[i].field];
            let Some(bad) = unparsable(f.t(), s) else { return Ok(()) };
            if is_bool(f.t()) && !args[i].pos {
                return Ok(());
            }
            if args[i].pos && bad.starts_with("--") {
                return Ok(());
            }
            *args[i].words.last_mut().unwrap() = bad.to_string();
            "unparsable"
        }
        1 => {
            // one too big by one
            let i = s.below(args.len());
            let big = match &fs[args[i].field].t().k {
                K::Sc(Sk::UInt(b, _)) if *b < 128 => (1u128 << b).to_string(),
                K::Sc(Sk::Int(b, _)) if *b < 128 => {
                    if s.bool() { (1i128 << (b - 1)).to_string() } else { (-(1i128 << (b - 1)) - 1).to_string() }
                }
                _ => return Ok(()),
            };
            *args[i].words.last_mut().unwrap() = big;
            "range"
        }
        2 => {
            // nobody's name
            let i = s.below(args.len());
            if args[i].pos {
                return Ok(());
            }
            let n = match s.below(8) {
                0 => format!("{}_", args[i].words[0]),
                4.. => {
                    let w = args[i].words[0].clone();
                    format!("--{}", s.near_name(w.trim_start_matches('-')))
                }
                1 => "--".to_string(),
                2 => format!("--{}", args[i].words[0]),
                _ => args[i].words[0].to_uppercase(),
            };
            if fs.iter().any(|f| format!("--{}", f.name) == n) {
                return Ok(());
            }
            args[i].words[0] = n;
            "unknown"
        }
        3 => {
            // the last argument's value is missing
            let Some(i) = args.iter().rposition(|a| a.words.len() == 2) else { return Ok(()) };
            let mut a = args.remove(i);
            a.words.pop();
            args.push(a);
            "no-value"
        }
        4 => {
            // a required field is missing
            let i = s.below(args.len());
            let f = &fs[args[i].field];
            if is_bool(f.t()) && !f.positional {
                return Ok(());
            }
            // dropping a positional one moves the later ones up; the last of them has none then
            args.remove(i);
            "missing"
        }
        _ => {
            let extra = Arg { words: vec![s.pick(&["x", "1", "", "true", "-v"]).to_string()], field: 0, pos: true };
            let i = s.below(args.len() + 1);
            args.insert(i, extra);
            "surplus"
        }
    };
    let w = words(&args);
    cx.sample(|| format!("{}: {w:?} ({why})", t.name));
    cx.key(&format!("{}{w:?}", t.name));
    cx.nontrivial();
    cx.label(why);
    match run(r, &w) {
        Ok(g) => fail(format!("accepts:{why}"), format!("{} from {w:?}: must not give a value ({why}), gave {} (undamaged: {})", t.name, short(&g), short(&v))),
        Err(_) => Ok(()),
    }
}

pub const A01: Prop = Prop {
    id: "A01",
    targets: &[
        Target { name: "filled", quick: 200_000, thorough: 5_000_000, rule: "random field values as an argument list, named ones shuffled, positional ones interleaved in order, spelled in any way the type parses. Non-trivial: more than one argument", f: filled },
        Target { name: "refused", quick: 100_000, thorough: 2_000_000, rule: "such a list with one thing wrong (unparsable or too large value, unknown name, missing value or field, surplus argument) must not give a value. Non-trivial: the wrong thing applies to the type", f: refused },
    ],
};
