//! P01, P02: pretty-printing, against a reference rendering written from the property.
use corpus::*;
use facet_core::TypeNameOpts;
use facet_pretty::{ColorGenerator, FacetPretty, PrettyPrinter};
use facet_reflect::Peek;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::Arc;
use vpcore::{Ctx, Prop, R, Src, Target, ensure, fail};

/// A value under all the entry points.
trait Shown {
    fn native(&self) -> V;
    fn how(&self, n: usize, p: PrettyPrinter) -> String;
    fn pretty(&self) -> String;
    fn limited(&self, n: usize, by: usize, full: &str, p: PrettyPrinter) -> Result<(), String>;
}
const HOWS: [&str; 6] = ["format", "format_peek", "format_to", "pretty_with", "pretty_with+flags", "reused"];
struct W<X>(X);
impl<X: Gt> Shown for W<X> {
    fn native(&self) -> V {
        NATIVE_ORDER.set(true);
        let v = self.0.to_v();
        NATIVE_ORDER.set(false);
        v
    }
    fn how(&self, n: usize, p: PrettyPrinter) -> String {
        struct To<'a, X>(&'a X, PrettyPrinter);
        impl<X: Gt> std::fmt::Display for To<'_, X> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.1.format_to(self.0, f)
            }
        }
        match n {
            0 => p.format(&self.0),
            1 => p.format_peek(Peek::new(&self.0)),
            2 => To(&self.0, p).to_string(),
            3 => self.0.pretty_with(p).to_string(),
            4 => format!("{:#}", self.0.pretty_with(p)),
            _ => {
                let _ = p.format(&self.0);
                p.format_peek(Peek::new(&self.0))
            }
        }
    }
    fn pretty(&self) -> String {
        self.0.pretty().to_string()
    }
    fn limited(&self, n: usize, by: usize, full: &str, p: PrettyPrinter) -> Result<(), String> {
        struct To<'a, X>(&'a X, PrettyPrinter);
        impl<X: Gt> std::fmt::Display for To<'_, X> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.1.format_to(self.0, f)
            }
        }
        use std::fmt::Write as _;
        corpus::sink::judge(n, full, |w| if by == 0 { write!(w, "{}", To(&self.0, p)) } else { write!(w, "{}", self.0.pretty_with(p)) })
    }
}
type Show = fn(&V) -> Box<dyn Shown>;
macro_rules! apis {
    ($([$($t:tt)*])*) => {
        static APIS: &[Show] = &[$(|v| Box::new(W(<$($t)* as Gt>::from_v(v)))),*];
    };
}
with_roots!(apis);
#[allow(unused)]
fn _unused(_: Arc<u8>, _: HashMap<u8, u8>, _: BTreeMap<u8, u8>, _: Cow<str>) {}

// ---------------------------------------------------------------- settings

#[derive(Clone, Copy, Debug)]
struct Set {
    indent: usize,
    depth: Option<usize>,
    colors: bool,
    gen_: Option<(f32, f32, f32)>,
}
impl Set {
    fn printer(&self) -> PrettyPrinter {
        let mut p = PrettyPrinter::new().with_colors(self.colors);
        if self.indent != 2 {
            p = p.with_indent_size(self.indent);
        }
        if let Some(d) = self.depth {
            p = p.with_max_depth(d);
        }
        if let Some((h, s, l)) = self.gen_ {
            p = p.with_color_generator(ColorGenerator::new().with_base_hue(h).with_saturation(s).with_lightness(l));
        }
        p
    }
}
fn gen_set(s: &mut Src) -> Set {
    let indent = match s.below(3) {
        0 => 2,
        1 => s.below(6),
        _ => s.below(41),
    };
    let depth = if s.chance(1, 4) { Some(s.below(7)) } else { None };
    let gen_ = if s.chance(1, 3) { Some((s.below(800) as f32 - 200.0, s.below(21) as f32 / 10.0 - 0.5, s.below(21) as f32 / 10.0 - 0.5)) } else { None };
    Set { indent, depth, colors: s.bool(), gen_ }
}

// ---------------------------------------------------------------- the reference

fn sensitive(t: T) -> bool {
    t.any(&mut |t| match &t.k {
        K::St(_, f) => f.iter().any(|f| f.sensitive),
        K::En(_, vs) => vs.iter().any(|v| v.fields.iter().any(|f| f.sensitive)),
        _ => false,
    })
}
struct Name(T);
impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0.sh().vtable.type_name)(f, TypeNameOpts::infinite())
    }
}
struct Ref {
    o: String,
    indent: usize,
    depth: Option<usize>,
    redacted: usize,
    cut: usize,
    nodes: usize,
    deepest: usize,
}
impl Ref {
    fn ind(&mut self, d: usize) {
        self.o.extend(std::iter::repeat_n(' ', d * self.indent));
    }
    fn docs(&mut self, docs: &[&str], d: usize) {
        for l in docs {
            let _ = write!(self.o, "///{l}\n");
            self.ind(d);
        }
    }
    fn own_text(t: T, v: &V, debug: bool) -> String {
        let mut out = String::new();
        (t.with_peek)(v, &mut |p| {
            out = if !debug && p.shape().is_display() {
                format!("{p}")
            } else {
                format!("{p:?}")
            }
        });
        out
    }
    fn scalar(&mut self, t: T, v: &V, sk: Sk) {
        match (sk, v) {
            (Sk::Bool, V::B(b)) => write!(self.o, "{b}"),
            (_, V::U(u)) if sk != Sk::Trk => write!(self.o, "{u}"),
            (_, V::I(i)) => write!(self.o, "{i}"),
            (_, V::F32(b)) => write!(self.o, "{}", f32::from_bits(*b)),
            (_, V::F64(b)) => write!(self.o, "{}", f64::from_bits(*b)),
            (_, V::C(c)) => write!(self.o, "{c}"),
            (Sk::Str | Sk::Ip(_), V::S(s)) => write!(self.o, "{s}"),
            (Sk::Path, V::S(s)) if t.name.contains("Utf8") => write!(self.o, "{s}"),
            (Sk::Path, V::S(s)) => write!(self.o, "{:?}", std::path::Path::new(s)),
            _ => write!(self.o, "{}", Self::own_text(t, v, false)),
        }
        .unwrap()
    }
    fn val(&mut self, t: T, v: &V, d: usize) {
        self.nodes += 1;
        if self.depth.is_some_and(|m| d > m) {
            self.cut += 1;
            self.o.push_str("[...]");
            return;
        }
        self.deepest = self.deepest.max(d);
        match (&t.k, v) {
            (K::Sc(sk), _) => self.scalar(t, v, *sk),
            (K::Opt(_), V::O(None)) => write!(self.o, "{}::None", Name(t)).unwrap(),
            (K::Opt(e), V::O(Some(x))) => {
                write!(self.o, "{}::Some(", Name(t)).unwrap();
                self.val(e(), x, d);
                self.o.push(')');
            }
            (K::St(_, fs), V::St(xs)) => {
                self.docs(t.sh().doc, d);
                write!(self.o, "{} {{", Name(t)).unwrap();
                if fs.is_empty() {
                    self.o.push('}');
                    return;
                }
                self.o.push('\n');
                let facet_core::Def::Struct(def) = t.sh().def else { panic!("harness: struct shape") };
                for (i, (f, x)) in fs.iter().zip(xs).enumerate() {
                    let doc = def.fields[i].doc;
                    if !doc.is_empty() && i > 0 {
                        self.o.push('\n');
                    }
                    self.ind(d + 1);
                    self.docs(doc, d + 1);
                    write!(self.o, "{}: ", f.name).unwrap();
                    self.part(f, x, d + 1);
                }
                self.ind(d);
                self.o.push('}');
            }
            (K::En(_, vs), V::En(i, xs)) => {
                let facet_core::Def::Enum(def) = t.sh().def else { panic!("harness: enum shape") };
                let vd = &vs[*i];
                self.docs(t.sh().doc, d);
                self.docs(def.variants[*i].doc, d);
                write!(self.o, "{}::{}", Name(t), vd.name).unwrap();
                let (open, close) = match vd.kind {
                    Vk::Unit => return,
                    Vk::Tuple => ("(", ")"),
                    Vk::Named => (" {", "}"),
                };
                self.o.push_str(open);
                if vd.fields.is_empty() {
                    self.o.push_str(if vd.kind == Vk::Tuple { ")" } else { " }" });
                    return;
                }
                self.o.push('\n');
                for (j, (f, x)) in vd.fields.iter().zip(xs).enumerate() {
                    self.ind(d + 1);
                    self.docs(def.variants[*i].data.fields[j].doc, d + 1);
                    if vd.kind == Vk::Named {
                        write!(self.o, "{}: ", f.name).unwrap();
                    }
                    self.part(f, x, d + 1);
                }
                self.ind(d);
                self.o.push_str(close);
            }
            (K::List(e), V::L(xs)) => {
                write!(self.o, "{}", Name(t)).unwrap();
                if matches!(e().k, K::Sc(Sk::UInt(8, false))) {
                    for (i, x) in xs.iter().enumerate() {
                        if i % 16 == 0 {
                            self.o.push('\n');
                            self.ind(d + 1);
                        } else {
                            self.o.push(' ');
                        }
                        write!(self.o, "{:02x}", x.u()).unwrap();
                    }
                    return;
                }
                self.o.push_str(" [\n");
                for x in xs {
                    self.ind(d + 1);
                    self.val(e(), x, d + 1);
                    self.o.push_str(",\n");
                }
                self.ind(d);
                self.o.push(']');
            }
            (K::Map(_, k, e), V::M(xs)) => {
                write!(self.o, "{} {{\n", Name(t)).unwrap();
                for (a, b) in xs {
                    self.ind(d + 1);
                    self.val(k(), a, d + 1);
                    self.o.push_str(": ");
                    self.val(e(), b, d + 1);
                    self.o.push_str(",\n");
                }
                self.ind(d);
                self.o.push('}');
            }
            // arrays, slices and smart pointers have no structured form; their own debug text
            // stands for them, unless that could show something sensitive
            _ if sensitive(t) => {
                self.redacted += 1;
                write!(self.o, "{} [REDACTED]", Name(t)).unwrap();
            }
            _ => write!(self.o, "unsupported peek variant: {}", Self::own_text(t, v, true)).unwrap(),
        }
    }
    fn part(&mut self, f: &Fd, x: &V, d: usize) {
        if f.sensitive {
            self.redacted += 1;
            self.o.push_str("[REDACTED]");
        } else {
            self.val(f.t(), x, d);
        }
        self.o.push_str(",\n");
    }
}
fn reference(t: T, v: &V, st: &Set) -> Ref {
    let mut r = Ref { o: String::new(), indent: st.indent, depth: st.depth, redacted: 0, cut: 0, nodes: 0, deepest: 0 };
    r.val(t, v, 0);
    r
}

// ---------------------------------------------------------------- values

/// No escape characters (styling could not be told from content), no accidental "[REDACTED]".
fn tame(v: V) -> V {
    let t = |s: String| s.replace('\x1b', "e").replace("REDACTED", "redacted");
    match v {
        V::S(s) => V::S(t(s)),
        V::C('\x1b') => V::C('e'),
        V::St(v) => V::St(v.into_iter().map(tame).collect()),
        V::En(i, v) => V::En(i, v.into_iter().map(tame).collect()),
        V::L(v) => V::L(v.into_iter().map(tame).collect()),
        V::M(m) => {
            let mut o: Vec<(V, V)> = vec![];
            for (k, x) in m {
                let k = tame(k);
                if !o.iter().any(|(q, _)| *q == k) {
                    o.push((k, tame(x)));
                }
            }
            V::M(o)
        }
        V::O(Some(x)) => V::some(tame(*x)),
        V::P(x) => V::P(Box::new(tame(*x))),
        o => o,
    }
}
/// Hash maps keep one entry at most (their order differs from one instance to the next).
fn single(t: T, v: V) -> V {
    match (&t.k, v) {
        (K::St(_, f), V::St(v)) => V::St(f.iter().zip(v).map(|(f, v)| single(f.t(), v)).collect()),
        (K::En(_, vs), V::En(i, v)) => V::En(i, vs[i].fields.iter().zip(v).map(|(f, v)| single(f.t(), v)).collect()),
        (K::List(e) | K::Slice(e) | K::Array(e, _), V::L(v)) => V::L(v.into_iter().map(|x| single(e(), x)).collect()),
        (K::Map(mk, k, e), V::M(m)) => {
            let n = if *mk == Mk::Hash { 1 } else { usize::MAX };
            V::M(m.into_iter().take(n).map(|(a, b)| (single(k(), a), single(e(), b))).collect())
        }
        (K::Opt(e), V::O(Some(x))) => V::some(single(e(), *x)),
        (K::Arc(e), V::P(x)) => V::P(Box::new(single(e(), *x))),
        (_, o) => o,
    }
}
/// Debug text of arrays, slices and pointers over hash maps comes in no fixed order.
fn unordered_debug(t: T, v: &V, inside: bool) -> bool {
    match (&t.k, v) {
        (K::St(_, f), V::St(v)) => f.iter().zip(v).any(|(f, v)| unordered_debug(f.t(), v, inside)),
        (K::En(_, vs), V::En(i, v)) => vs[*i].fields.iter().zip(v).any(|(f, v)| unordered_debug(f.t(), v, inside)),
        (K::List(e), V::L(v)) => v.iter().any(|x| unordered_debug(e(), x, inside)),
        (K::Slice(e) | K::Array(e, _), V::L(v)) => v.iter().any(|x| unordered_debug(e(), x, true)),
        (K::Map(mk, k, e), V::M(m)) => (inside && *mk == Mk::Hash && m.len() > 1) || m.iter().any(|(a, b)| unordered_debug(k(), a, inside) || unordered_debug(e(), b, inside)),
        (K::Opt(e), V::O(Some(x))) => unordered_debug(e(), x, inside),
        (K::Arc(e), V::P(x)) => unordered_debug(e(), x, true),
        _ => false,
    }
}
/// Other contents for (some of) the sensitive parts.
fn other(t: T, v: &V, s: &mut Src, o: Opt, n: &mut usize) -> V {
    fn fld(f: &Fd, v: &V, s: &mut Src, o: Opt, n: &mut usize) -> V {
        if !f.sensitive {
            return other(f.t(), v, s, o, n);
        }
        if s.chance(1, 6) {
            return v.clone();
        }
        let x = gen_v(f.t(), s, o);
        if x != *v {
            *n += 1;
        }
        x
    }
    match (&t.k, v) {
        (K::St(_, f), V::St(v)) => V::St(f.iter().zip(v).map(|(f, v)| fld(f, v, s, o, n)).collect()),
        (K::En(_, vs), V::En(i, v)) => V::En(*i, vs[*i].fields.iter().zip(v).map(|(f, v)| fld(f, v, s, o, n)).collect()),
        (K::List(e) | K::Slice(e) | K::Array(e, _), V::L(v)) => V::L(v.iter().map(|x| other(e(), x, s, o, n)).collect()),
        // keys keep their order only if they keep their contents
        (K::Map(_, k, e), V::M(m)) if m.len() == 1 => V::M(vec![(other(k(), &m[0].0, s, o, n), other(e(), &m[0].1, s, o, n))]),
        (K::Map(_, _, e), V::M(m)) => V::M(m.iter().map(|(a, b)| (a.clone(), other(e(), b, s, o, n))).collect()),
        (K::Opt(e), V::O(Some(x))) => V::some(other(e(), x, s, o, n)),
        (K::Arc(e), V::P(x)) => V::P(Box::new(other(e(), x, s, o, n))),
        (_, o) => o.clone(),
    }
}

thread_local! {
    static ALL: Vec<usize> = pick_roots(|_| true);
    static SENS: Vec<usize> = pick_roots(sensitive);
}
/// Compound types thrice.
fn pick_roots(f: impl Fn(T) -> bool) -> Vec<usize> {
    (0..ROOTS.len())
        .filter(|i| f((ROOTS[*i].ty)()))
        .flat_map(|i| {
            let t = (ROOTS[i].ty)();
            std::iter::repeat_n(i, if matches!(t.k, K::Sc(_)) { 1 } else { 1 + t.children().len().min(4) })
        })
        .collect()
}
fn cut(x: &str, n: usize) -> String {
    let mut k = x.len().min(n);
    while !x.is_char_boundary(k) {
        k -= 1;
    }
    if k < x.len() { format!("{}... ({} bytes)", &x[..k], x.len()) } else { x.to_string() }
}
/// Where two texts part.
fn diff(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).map(|(x, _)| x.len_utf8()).sum::<usize>();
    let mut from = n.saturating_sub(60);
    while !a.is_char_boundary(from) {
        from -= 1;
    }
    format!("at byte {n}: got {:?} want {:?}", cut(&a[from..], 260), cut(&b[from..], 260))
}
fn opt(s: &mut Src) -> Opt {
    Opt { max_elems: if s.chance(1, 8) { 40 } else { 3 }, depth: s.range(2, 5), str_max: 8, finite: false }
}

// ---------------------------------------------------------------- styling

/// Removes `ESC [ ... m`; None if an escape is anything else. Also whether styling is off at the end.
fn strip(s: &str) -> Option<(String, bool, usize)> {
    let mut o = String::new();
    let mut on = false;
    let mut n = 0;
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            o.push(c);
            continue;
        }
        if it.next() != Some('[') {
            return None;
        }
        let mut p = String::new();
        loop {
            match it.next()? {
                'm' => break,
                c if c.is_ascii_digit() || c == ';' => p.push(c),
                _ => return None,
            }
        }
        n += 1;
        on = !(p.is_empty() || p == "0");
    }
    Some((o, !on, n))
}

// ---------------------------------------------------------------- targets

fn differ(s: &mut Src, cx: &mut Ctx) -> R {
    let i = SENS.with(|v| v[s.below(v.len())]);
    let t = (ROOTS[i].ty)();
    let o = opt(s);
    let v = single(t, tame(gen_v(t, s, o)));
    let mut n = 0;
    let w = other(t, &v, s, o, &mut n);
    let st = gen_set(s);
    let how = s.below(HOWS.len());
    let (a, b) = (APIS[i](&v), APIS[i](&w));
    let (x, y) = (a.how(how, st.printer()), b.how(how, st.printer()));
    cx.label(HOWS[how]);
    cx.label(if st.colors { "colours" } else { "plain" });
    if st.depth.is_some() {
        cx.label("max-depth");
    }
    cx.sample(|| format!("{}: {} / {} {st:?} -> {}", t.name, cut(&format!("{v:?}"), 200), cut(&format!("{w:?}"), 200), cut(&x, 400)));
    cx.key(&x);
    if n > 0 {
        cx.nontrivial();
    }
    ensure!(x == y, "influences", "{} printed ({}, {st:?}): {v:?} and {w:?} differ only in sensitive contents, their output differs {}", t.name, HOWS[how], diff(&x, &y));
    // what is left out is said to be left out
    let want = reference(t, &v, &st).redacted;
    let Some((plain, ..)) = strip(&x) else { return fail("styling", format!("{}: output has an escape that is no styling: {x:?}", t.name)) };
    let got = plain.matches("[REDACTED]").count();
    ensure!(got == want, "redactions", "{} printed ({}, {st:?}): {want} sensitive parts in {v:?}, [REDACTED] shown {got} times: {plain}", t.name, HOWS[how]);
    if s.chance(1, 4) {
        ensure!(a.pretty() == b.pretty(), "influences", "{} by pretty(): {v:?} and {w:?} differ only in sensitive contents, their output differs {}", t.name, diff(&a.pretty(), &b.pretty()));
    }
    Ok(())
}

fn faithful(s: &mut Src, cx: &mut Ctx) -> R {
    let i = ALL.with(|v| v[s.below(v.len())]);
    let t = (ROOTS[i].ty)();
    let o = opt(s);
    let v = tame(gen_v(t, s, o));
    if unordered_debug(t, &v, false) {
        cx.label("skipped-unordered");
        return Ok(());
    }
    let st = gen_set(s);
    let how = s.below(HOWS.len());
    let x = APIS[i](&v);
    let native = x.native();
    let want = reference(t, &native, &st);
    let plain = x.how(how, Set { colors: false, ..st }.printer());
    cx.label(HOWS[how]);
    if want.cut > 0 {
        cx.label("cut");
    }
    if want.deepest >= 3 {
        cx.label("deep");
    }
    cx.sample(|| format!("{} {st:?} -> {}", t.name, cut(&plain, 600)));
    cx.key(&plain);
    if want.nodes > 3 {
        cx.nontrivial();
    }
    ensure!(plain == want.o, "shows", "{} printed ({}, {st:?}) from {native:?}: {}", t.name, HOWS[how], diff(&plain, &want.o));
    let col = x.how(how, Set { colors: true, ..st }.printer());
    let Some((text, off, n)) = strip(&col) else { return fail("styling", format!("{}: coloured output has an escape that is no styling: {col:?}", t.name)) };
    ensure!(text == plain, "colours-change-text", "{} ({}, {st:?}): without its styling the coloured text differs {}", t.name, HOWS[how], diff(&text, &plain));
    ensure!(off, "styling-left-on", "{} ({}, {st:?}): styling is still on at the end of {col:?}", t.name, HOWS[how]);
    if n > 0 {
        cx.label("styled");
    }
    if s.chance(1, 3) {
        let (colors, by) = (s.bool(), s.below(2));
        let full = if colors { &col } else { &plain };
        let n = s.below(full.len() + 2);
        if let Err(m) = x.limited(n, by, full, Set { colors, ..st }.printer()) {
            return fail("sink", format!("{} ({st:?}, colours {colors}) printed to a sink of {n} bytes: {m}", t.name));
        }
        cx.label("limited-sink");
    }
    if s.chance(1, 4) {
        let d = x.pretty();
        let want = reference(t, &native, &Set { indent: 2, depth: None, colors: true, gen_: None });
        let Some((text, off, _)) = strip(&d) else { return fail("styling", format!("{}: pretty() has an escape that is no styling: {d:?}", t.name)) };
        ensure!(text == want.o && off, "shows", "{} by pretty() from {native:?}: {}", t.name, diff(&text, &want.o));
    }
    Ok(())
}

pub const P01: Prop = Prop {
    id: "P01",
    targets: &[Target { name: "differ", quick: 150_000, thorough: 6_000_000, rule: "two values of a type with sensitive fields somewhere, equal but for sensitive contents, printed with random settings through a random entry point: identical text, one [REDACTED] for each sensitive part in view. Non-trivial: some sensitive content differs", f: differ }],
};
pub const P02: Prop = Prop {
    id: "P02",
    targets: &[Target { name: "faithful", quick: 150_000, thorough: 6_000_000, rule: "a random value of a random type printed with random settings through a random entry point, plain and coloured: the plain text is the reference rendering, the coloured text without its styling is the plain one. Non-trivial: more than three parts", f: faithful }],
};
