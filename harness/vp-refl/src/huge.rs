//! Values whose parts lie further apart than 16 bits tell: big arrays as fields, payloads and elements.
use crate::common::*;
use facet::Facet;
use facet_reflect::HeapValue;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Facet, Clone, PartialEq, Debug)]
struct Chunk {
    first: u8,
    a: [u8; 70_001],
    n: u32,
    b: [u16; 33_000],
    s: String,
    z: u8,
}
#[derive(Facet, Clone, PartialEq, Debug)]
struct Pair(Chunk, [u64; 3], Chunk);
#[derive(Facet, Clone, PartialEq, Debug)]
#[repr(u8)]
enum Sel {
    Small(u8),
    Wide(u8, [u8; 66_000], String, u64),
    Named { pad: [u64; 9_000], s: String, k: u16 },
    #[allow(dead_code)]
    Empty,
}
#[derive(Facet, Clone, PartialEq, Debug)]
#[repr(C)]
enum SelC {
    Wide(u8, [u32; 17_000], String, u64),
    Named { k: u16, pad: [u8; 65_536], s: String },
}
type Tup = (u8, [u8; 66_000], u32, String, [u16; 40_000], i8);

fn arr<X: Copy, const N: usize>(s: &mut Src, f: impl Fn(u64) -> X) -> [X; N] {
    let mut a = [f(s.below(256) as u64); N];
    for i in [0, N / 2, N - 1] {
        a[i] = f(s.below(65536) as u64);
    }
    a
}
trait Huge: Facet + Clone + PartialEq + Sized + 'static {
    fn make(s: &mut Src) -> Self;
    /// is what is seen by reflection this very value?
    fn seen(&self, p: Peek<'_>, s: &mut Src) -> Result<(), String>;
    /// builds this value in the current slot
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Result<Wip<'a>, String>;
}
type Wr<'a> = Result<Wip<'a>, String>;
fn st<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn at<X: Facet>(name: &str, want: &X, got: Option<Peek<'_>>) -> Result<(), String> {
    let Some(p) = got else { return Err(format!("{name} is not found")) };
    match p.get::<X>() {
        Ok(x) if std::ptr::eq(x, want) => Ok(()),
        Ok(x) => Err(format!("{name} is at {:p}, seen at {x:p}", want)),
        Err(e) => Err(format!("{name}: {e}")),
    }
}
fn order(n: usize, s: &mut Src) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, s.below(i + 1));
    }
    v
}
macro_rules! fields {
    ($w:expr, $s:expr, $(($i:expr, $name:expr, $x:expr)),* $(,)?) => {{
        let mut w = $w;
        let n = [$($i),*].len();
        for k in order(n, $s) {
            $(if k == $i {
                w = st(if $s.bool() { w.field($i) } else { w.field_named($name) })?;
                w = st(w.put($x.clone()))?;
                w = st(w.pop())?;
            })*
        }
        Ok(w)
    }};
}
macro_rules! look {
    ($p:expr, $(($i:expr, $name:expr, $x:expr)),* $(,)?) => {{
        $(at($name, $x, $p.field($i).ok())?; at($name, $x, $p.field_by_name($name).ok())?;)*
        let all: Vec<_> = $p.fields().collect();
        $(at(all[$i].0.name, $x, Some(all[$i].1))?;)*
        Ok(())
    }};
}
macro_rules! looke {
    ($p:expr, $(($i:expr, $name:expr, $x:expr)),* $(,)?) => {{
        $(at($name, $x, $p.field($i))?; at($name, $x, $p.field_by_name($name))?;)*
        let all: Vec<_> = $p.fields().collect();
        $(at(all[$i].0.name, $x, Some(all[$i].1))?;)*
        Ok(())
    }};
}
impl Huge for Chunk {
    fn make(s: &mut Src) -> Self {
        Chunk { first: s.below(256) as u8, a: arr(s, |x| x as u8), n: s.int(32) as u32, b: arr(s, |x| x as u16), s: s.string(9), z: s.below(256) as u8 }
    }
    fn seen(&self, p: Peek<'_>, _: &mut Src) -> Result<(), String> {
        let p = st(p.into_struct())?;
        look!(p, (0, "first", &self.first), (1, "a", &self.a), (2, "n", &self.n), (3, "b", &self.b), (4, "s", &self.s), (5, "z", &self.z))
    }
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        if s.chance(1, 5) {
            return st(w.put(self.clone()));
        }
        fields!(w, s, (0, "first", self.first), (1, "a", self.a), (2, "n", self.n), (3, "b", self.b), (4, "s", self.s), (5, "z", self.z))
    }
}
impl Huge for Tup {
    fn make(s: &mut Src) -> Self {
        (s.below(256) as u8, arr(s, |x| x as u8), s.int(32) as u32, s.string(9), arr(s, |x| x as u16), s.int(8) as i8)
    }
    fn seen(&self, p: Peek<'_>, _: &mut Src) -> Result<(), String> {
        let p = st(p.into_struct())?;
        look!(p, (0, "0", &self.0), (1, "1", &self.1), (2, "2", &self.2), (3, "3", &self.3), (4, "4", &self.4), (5, "5", &self.5))
    }
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        fields!(w, s, (0, "0", self.0), (1, "1", self.1), (2, "2", self.2), (3, "3", self.3), (4, "4", self.4), (5, "5", self.5))
    }
}
impl Huge for Pair {
    fn make(s: &mut Src) -> Self {
        Pair(Chunk::make(s), [1, s.int(64) as u64, 3], Chunk::make(s))
    }
    fn seen(&self, p: Peek<'_>, s: &mut Src) -> Result<(), String> {
        let q = st(p.into_struct())?;
        self.0.seen(st(q.field(0))?, s)?;
        self.2.seen(st(q.field(2))?, s)?;
        look!(q, (0, "0", &self.0), (1, "1", &self.1), (2, "2", &self.2))
    }
    fn put<'a>(&self, mut w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        for k in order(3, s) {
            w = st(w.field(k))?;
            w = match k {
                0 => self.0.put(w, s)?,
                1 => st(w.put(self.1))?,
                _ => self.2.put(w, s)?,
            };
            w = st(w.pop())?;
        }
        Ok(w)
    }
}
impl Huge for Sel {
    fn make(s: &mut Src) -> Self {
        match s.below(4) {
            0 => Sel::Small(s.below(256) as u8),
            1 => Sel::Wide(s.below(256) as u8, arr(s, |x| x as u8), s.string(9), s.int(64) as u64),
            2 => Sel::Named { pad: arr(s, |x| x << 40), s: s.string(9), k: s.int(16) as u16 },
            _ => Sel::Empty,
        }
    }
    fn seen(&self, p: Peek<'_>, _: &mut Src) -> Result<(), String> {
        let p = st(p.into_enum())?;
        let name = match self {
            Sel::Small(..) => "Small",
            Sel::Wide(..) => "Wide",
            Sel::Named { .. } => "Named",
            Sel::Empty => "Empty",
        };
        if p.variant_name_active() != name {
            return Err(format!("{name} is seen as {}", p.variant_name_active()));
        }
        match self {
            Sel::Small(a) => looke!(p, (0, "_0", a)),
            Sel::Wide(a, b, c, d) => looke!(p, (0, "_0", a), (1, "_1", b), (2, "_2", c), (3, "_3", d)),
            Sel::Named { pad, s, k } => looke!(p, (0, "pad", pad), (1, "s", s), (2, "k", k)),
            Sel::Empty => Ok(()),
        }
    }
    fn put<'a>(&self, mut w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        if s.chance(1, 4) {
            // another variant first, complete or not
            w = st(w.variant(1))?;
            w = st(w.field(2))?;
            w = st(w.put("gone".to_string()))?;
            w = st(w.pop())?;
        }
        match self {
            Sel::Small(a) => fields!(st(w.variant_named("Small"))?, s, (0, "_0", a)),
            Sel::Wide(a, b, c, d) => fields!(st(w.variant_named("Wide"))?, s, (0, "_0", a), (1, "_1", b), (2, "_2", c), (3, "_3", d)),
            Sel::Named { pad, s: t, k } => fields!(st(w.variant(2))?, s, (0, "pad", pad), (1, "s", t), (2, "k", k)),
            Sel::Empty => st(w.variant(3)),
        }
    }
}
impl Huge for SelC {
    fn make(s: &mut Src) -> Self {
        if s.bool() { SelC::Wide(s.below(256) as u8, arr(s, |x| x as u32), s.string(9), s.int(64) as u64) } else { SelC::Named { k: s.int(16) as u16, pad: arr(s, |x| x as u8), s: s.string(9) } }
    }
    fn seen(&self, p: Peek<'_>, _: &mut Src) -> Result<(), String> {
        let p = st(p.into_enum())?;
        if (p.variant_name_active() == "Wide") != matches!(self, SelC::Wide(..)) {
            return Err(format!("seen as {}", p.variant_name_active()));
        }
        match self {
            SelC::Wide(a, b, c, d) => looke!(p, (0, "_0", a), (1, "_1", b), (2, "_2", c), (3, "_3", d)),
            SelC::Named { k, pad, s } => looke!(p, (0, "k", k), (1, "pad", pad), (2, "s", s)),
        }
    }
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        match self {
            SelC::Wide(a, b, c, d) => fields!(st(w.variant(0))?, s, (0, "_0", a), (1, "_1", b), (2, "_2", c), (3, "_3", d)),
            SelC::Named { k, pad, s: t } => fields!(st(w.variant(1))?, s, (0, "k", k), (1, "pad", pad), (2, "s", t)),
        }
    }
}
impl<X: Huge> Huge for Vec<X> {
    fn make(s: &mut Src) -> Self {
        (0..s.below(5)).map(|_| X::make(s)).collect()
    }
    fn seen(&self, p: Peek<'_>, s: &mut Src) -> Result<(), String> {
        let p = st(p.into_list())?;
        if p.len() != self.len() || p.get(self.len()).is_some() || p.iter().count() != self.len() {
            return Err(format!("{} elements, seen {}", self.len(), p.len()));
        }
        for (i, (x, y)) in self.iter().zip(p.iter()).enumerate() {
            at("element", x, p.get(i))?;
            at("element by iter", x, Some(y))?;
            x.seen(y, s)?;
        }
        Ok(())
    }
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        let mut w = st(w.begin_pushback())?;
        for x in self {
            w = st(w.push())?;
            w = x.put(w, s)?;
            w = st(w.pop())?;
        }
        Ok(w)
    }
}
impl<X: Huge> Huge for Option<X> {
    fn make(s: &mut Src) -> Self {
        s.chance(4, 5).then(|| X::make(s))
    }
    fn seen(&self, p: Peek<'_>, s: &mut Src) -> Result<(), String> {
        let p = st(p.into_option())?;
        match (self, p.value()) {
            (Some(x), Some(y)) => {
                at("payload", x, Some(y))?;
                x.seen(y, s)
            }
            (None, None) => Ok(()),
            (a, b) => Err(format!("present: {}, seen: {}", a.is_some(), b.is_some())),
        }
    }
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        match self {
            None => st(w.put_default()),
            Some(x) if s.chance(1, 4) => st(w.put(x.clone())),
            Some(x) => {
                let w = st(w.push_some())?;
                let w = x.put(w, s)?;
                st(w.pop())
            }
        }
    }
}
macro_rules! maps {
    ($($M:ident),*) => { $(
impl<X: Huge> Huge for $M<u16, X> {
    fn make(s: &mut Src) -> Self {
        (0..s.below(4)).map(|_| (s.below(6) as u16, X::make(s))).collect()
    }
    fn seen(&self, p: Peek<'_>, s: &mut Src) -> Result<(), String> {
        let p = st(p.into_map())?;
        if p.len() != self.len() || p.iter().count() != self.len() {
            return Err(format!("{} entries, seen {} / {}", self.len(), p.len(), p.iter().count()));
        }
        for (k, x) in self {
            at("entry", x, p.get(k))?;
        }
        for (k, y) in p.iter() {
            let k = st(k.get::<u16>())?;
            let Some(x) = self.get(k) else { return Err(format!("entry {k} seen")) };
            at("entry by iter", x, Some(y))?;
            x.seen(y, s)?;
        }
        Ok(())
    }
    fn put<'a>(&self, w: Wip<'a>, s: &mut Src) -> Wr<'a> {
        let mut w = st(w.begin_map_insert())?;
        for (k, x) in self {
            w = st(w.push_map_key())?;
            w = st(w.put(*k))?;
            w = st(w.push_map_value())?;
            w = x.put(w, s)?;
            w = st(w.pop())?;
        }
        Ok(w)
    }
} )* };
}
maps!(HashMap, BTreeMap);
impl<X: Huge> Huge for Arc<X> {
    fn make(s: &mut Src) -> Self {
        Arc::new(X::make(s))
    }
    fn seen(&self, p: Peek<'_>, s: &mut Src) -> Result<(), String> {
        let d = st(p.into_smart_pointer())?;
        let Some(b) = d.def().vtable.borrow_fn else { return Err("no borrow".into()) };
        let q = unsafe { b(PtrConst::new(self)) };
        if q.as_byte_ptr() as usize != Arc::as_ptr(self) as usize {
            return Err("target is elsewhere".into());
        }
        X::seen(self, Peek::new(&**self), s)
    }
    fn put<'a>(&self, w: Wip<'a>, _: &mut Src) -> Wr<'a> {
        st(w.put(self.clone()))
    }
}

fn read_one<X: Huge>(s: &mut Src) -> R {
    let x = Box::new(X::make(s));
    if let Err(m) = x.seen(Peek::new(&*x), s) {
        return fail("huge-read", format!("{}: {m}", X::SHAPE));
    }
    Ok(())
}
fn build_one<X: Huge>(s: &mut Src) -> R {
    let x = Box::new(X::make(s));
    let hv: HeapValue = match x.put(Wip::alloc::<X>(), s).and_then(|w| st(w.build())) {
        Ok(h) => h,
        Err(m) => return fail("huge-refused", format!("{}: {m}", X::SHAPE)),
    };
    match hv.materialize::<X>() {
        Ok(y) => ensure!(y == *x, "huge-value", "{}: the value built differs", X::SHAPE),
        Err(e) => return fail("huge-materialize", format!("{}: {e}", X::SHAPE)),
    }
    Ok(())
}
type F = fn(&mut Src) -> R;
fn pick(s: &mut Src) -> (&'static str, F, F) {
    macro_rules! of {
        ($($X:ty),* $(,)?) => { [$((stringify!($X), read_one::<$X> as F, build_one::<$X> as F)),*] };
    }
    let all = of!(Chunk, Tup, Pair, Sel, SelC, Vec<Chunk>, Vec<Sel>, Option<Chunk>, Option<Pair>, HashMap<u16, Chunk>, BTreeMap<u16, Chunk>, HashMap<u16, Option<Sel>>, BTreeMap<u16, SelC>, Arc<Chunk>, Vec<Option<Tup>>);
    all[s.below(all.len())]
}
pub fn reads(s: &mut Src, cx: &mut Ctx) -> R {
    let (n, f, _) = pick(s);
    cx.label(n);
    cx.nontrivial();
    cx.sample(|| n.to_string());
    f(s)
}
pub fn builds(s: &mut Src, cx: &mut Ctx) -> R {
    let (n, _, f) = pick(s);
    cx.label(n);
    cx.nontrivial();
    cx.sample(|| n.to_string());
    f(s)
}
