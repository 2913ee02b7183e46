//! W01-W03: construction histories, against a model of what has been supplied so far.
use crate::common::*;
use facet_reflect::{FrameMode, HeapValue, ReflectError};
use vpcore::alloc::tracked;

/// Progress of one slot.
#[derive(Clone, Debug)]
enum Pg {
    Unset,
    Full(V),
    St(Vec<Pg>),
    En(usize, Vec<Pg>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Root,
    Field(usize),
    Elem,
    Key,
    Val,
    Some,
    None,
}

#[derive(Clone, Debug)]
struct Fr {
    t: T2,
    mode: Mode,
    pg: Pg,
    /// the parent already counts this field as set
    bit: bool,
}
#[derive(Clone, Copy)]
struct T2(T);
impl std::fmt::Debug for T2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0.name)
    }
}

fn fds<'a>(t: T, pg: &Pg) -> &'a [Fd] {
    match (&t.k, pg) {
        (K::St(_, f), _) => f,
        (K::En(_, vs), Pg::En(i, _)) => &vs[*i].fields,
        (K::En(_, vs), Pg::Full(V::En(i, _))) => &vs[*i].fields,
        _ => &[],
    }
}

/// Closed slots: a struct nobody entered is unset even if it has no fields.
fn closed(t: T, pg: &Pg) -> Option<V> {
    match pg {
        Pg::Unset => None,
        _ => value(t, pg),
    }
}
/// The value in an open slot, if nothing is missing.
fn value(t: T, pg: &Pg) -> Option<V> {
    let all = |x: &[Pg]| fds(t, pg).iter().zip(x).map(|(f, p)| closed(f.t(), p)).collect::<Option<Vec<V>>>();
    match pg {
        Pg::Unset => match &t.k {
            K::St(_, f) if f.is_empty() => Some(V::St(vec![])),
            _ => None,
        },
        Pg::Full(v) => Some(v.clone()),
        Pg::St(x) => all(x).map(V::St),
        Pg::En(i, x) => all(x).map(|v| V::En(*i, v)),
    }
}

struct M {
    fr: Vec<Fr>,
    /// the root, once popped
    root: Option<(T, Pg)>,
}

enum Missing {
    /// one of these parts must be named: (type, field or variant-less or whole)
    Parts(Vec<(T, Option<&'static str>)>),
    /// a map key without its value
    Key,
}

fn missing(t: T, pg: &Pg, out: &mut Vec<(T, Option<&'static str>)>) {
    if value(t, pg).is_some() {
        return;
    }
    match (&t.k, pg) {
        (K::St(_, f), Pg::Unset) => out.extend(f.iter().map(|f| (t, Some(f.name)))),
        (K::St(..), Pg::St(x)) | (K::En(..), Pg::En(_, x)) => {
            for (f, p) in fds(t, pg).iter().zip(x) {
                if closed(f.t(), p).is_none() {
                    out.push((t, Some(f.name)));
                    if !matches!(p, Pg::Unset) {
                        missing(f.t(), p, out);
                    }
                }
            }
        }
        _ => out.push((t, None)),
    }
}

impl M {
    fn cur(&self) -> Option<&Fr> {
        self.fr.last()
    }
    fn cur_mut(&mut self) -> &mut Fr {
        self.fr.last_mut().unwrap()
    }
    fn usable(&self) -> Option<&Fr> {
        self.cur().filter(|f| f.mode != Mode::None)
    }
    fn can_init(&self) -> bool {
        self.usable().is_some_and(|f| !f.bit)
    }
    fn put(&mut self, v: V) {
        let f = self.cur_mut();
        f.pg = Pg::Full(v);
        if let Mode::Field(_) = f.mode {
            f.bit = true;
        }
    }
    /// pop without checks
    fn close(&mut self) {
        let f = self.fr.pop().unwrap();
        let v = value(f.t.0, &f.pg);
        let pg = match v.clone() {
            Some(v) => Pg::Full(v),
            None => f.pg,
        };
        match f.mode {
            Mode::Root => self.root = Some((f.t.0, pg)),
            Mode::Field(i) => match &mut self.cur_mut().pg {
                Pg::St(x) | Pg::En(_, x) => x[i] = pg,
                o => panic!("harness: field of {o:?}"),
            },
            Mode::Elem => match &mut self.cur_mut().pg {
                Pg::Full(V::L(x)) => x.push(v.unwrap()),
                o => panic!("harness: element of {o:?}"),
            },
            Mode::Val => {
                let k = self.fr.pop().unwrap();
                let k = value(k.t.0, &k.pg).unwrap();
                match &mut self.cur_mut().pg {
                    Pg::Full(V::M(x)) => {
                        match x.iter().position(|(a, _)| *a == k) {
                            Some(i) => x[i].1 = v.unwrap(),
                            None => x.push((k, v.unwrap())),
                        }
                        x.sort();
                    }
                    o => panic!("harness: entry of {o:?}"),
                }
            }
            Mode::Some => self.cur_mut().pg = Pg::Full(V::some(v.unwrap())),
            Mode::None => {}
            Mode::Key => panic!("harness: key popped"),
        }
    }
    /// what building now gives
    fn build(&self) -> Result<V, Missing> {
        let mut m = M { fr: self.fr.clone(), root: self.root.clone() };
        while let Some(f) = m.cur() {
            match f.mode {
                Mode::Key => return Err(Missing::Key),
                Mode::Elem | Mode::Val | Mode::Some if value(f.t.0, &f.pg).is_none() => {
                    let mut o = vec![];
                    missing(f.t.0, &f.pg, &mut o);
                    return Err(Missing::Parts(o));
                }
                _ => m.close(),
            }
        }
        let (t, pg) = m.root.unwrap();
        value(t, &pg).ok_or_else(|| {
            let mut o = vec![];
            missing(t, &pg, &mut o);
            Missing::Parts(o)
        })
    }
    fn path(&self) -> String {
        let mut p = "$".to_string();
        for w in self.fr.windows(2) {
            match w[1].mode {
                Mode::Root => {}
                Mode::Field(i) => {
                    p.push('.');
                    p.push_str(fds(w[0].t.0, &w[0].pg)[i].name);
                }
                Mode::Elem => p.push_str("[?]"),
                Mode::Key => p.push_str(".key"),
                Mode::Val => p.push_str(".value"),
                Mode::Some => p.push_str(".some"),
                Mode::None => p.push_str(".none"),
            }
        }
        p
    }
}

#[derive(Clone, Debug)]
enum Op {
    Field(usize),
    Named(String),
    Variant(usize),
    VariantNamed(String),
    /// how: 0 put, 1 put_shape, 2 put_peek
    Put(T2, V, u8),
    Parse(String, Option<V>),
    Default(bool),
    Missing,
    EmptyList,
    BeginList,
    Push,
    EmptyMap,
    BeginMap,
    PushKey,
    PushVal,
    PushSome,
    NoneInstead,
    Pop,
}

impl Op {
    fn kind(&self) -> String {
        let s = format!("{self:?}");
        s.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
    }
}

fn known_default(t: T) -> Option<V> {
    t.default.map(|f| f())
}
fn has_default(t: T) -> bool {
    t.sh().vtable.default_in_place.is_some()
}

/// Is the operation fine here? Then it is done to the model.
fn apply(m: &mut M, op: &Op) -> bool {
    let Some(f) = m.cur() else { return false };
    let (t, mode) = (f.t.0, f.mode);
    let none = mode == Mode::None;
    match op {
        Op::Field(_) | Op::Named(_) => {
            let fs = fds(t, &f.pg);
            let i = match op {
                Op::Field(i) => Some(*i).filter(|i| *i < fs.len()),
                Op::Named(n) => fs.iter().position(|f| f.name == n),
                _ => None,
            };
            let Some(i) = i.filter(|_| !none) else { return false };
            let f = m.cur_mut();
            f.pg = match std::mem::replace(&mut f.pg, Pg::Unset) {
                Pg::Unset => Pg::St(fs.iter().map(|_| Pg::Unset).collect()),
                Pg::Full(V::St(x)) => Pg::St(x.into_iter().map(Pg::Full).collect()),
                Pg::Full(V::En(k, x)) => Pg::En(k, x.into_iter().map(Pg::Full).collect()),
                o => o,
            };
            let (Pg::St(x) | Pg::En(_, x)) = &mut f.pg else { panic!("harness: {:?}", f.pg) };
            let pg = std::mem::replace(&mut x[i], Pg::Unset);
            let bit = closed(fs[i].t(), &pg).is_some();
            m.fr.push(Fr { t: T2(fs[i].t()), mode: Mode::Field(i), pg, bit });
        }
        Op::Variant(_) | Op::VariantNamed(_) => {
            let K::En(_, vs) = &t.k else { return false };
            let i = match op {
                Op::Variant(i) => Some(*i).filter(|i| *i < vs.len()),
                Op::VariantNamed(n) => vs.iter().position(|v| v.name == n),
                _ => None,
            };
            let Some(i) = i.filter(|_| !none) else { return false };
            m.cur_mut().pg = Pg::En(i, vs[i].fields.iter().map(|_| Pg::Unset).collect());
            for f in m.fr.iter_mut().rev() {
                if !matches!(f.mode, Mode::Field(_)) {
                    break;
                }
                f.bit = false;
            }
        }
        Op::Put(pt, v, how) => {
            let pt = pt.0;
            if *how == 2 && pt.sh().vtable.clone_into.is_none() {
                return false;
            }
            let v = if pt.id == t.id {
                v.clone()
            } else if matches!(&t.k, K::Opt(e) if e().id == pt.id) {
                V::some(v.clone())
            } else {
                return false;
            };
            if !m.can_init() {
                return false;
            }
            m.put(v);
        }
        Op::Parse(_, v) => match v {
            Some(v) if m.can_init() => m.put(v.clone()),
            _ => return false,
        },
        Op::Default(_) => match known_default(t) {
            Some(v) if has_default(t) && m.can_init() => m.put(v),
            _ => return false,
        },
        Op::Missing => {
            let K::St(_, fs) = &t.k else { return false };
            if none || !has_default(t) {
                return false;
            }
            let d = known_default(t).unwrap();
            let f = m.cur_mut();
            let x: Vec<V> = match &f.pg {
                Pg::Full(_) => return true,
                Pg::St(x) => fs.iter().zip(x).zip(d.fields()).map(|((f, p), d)| closed(f.t(), p).unwrap_or(d.clone())).collect(),
                _ => d.fields().to_vec(),
            };
            f.pg = Pg::Full(V::St(x));
        }
        Op::EmptyList | Op::EmptyMap => {
            let v = match (&t.k, op) {
                (K::List(_), Op::EmptyList) => V::L(vec![]),
                (K::Map(..), Op::EmptyMap) => V::M(vec![]),
                _ => return false,
            };
            if !m.can_init() {
                return false;
            }
            m.put(v);
        }
        Op::BeginList | Op::Push | Op::BeginMap | Op::PushKey => {
            let (v, inner, mode) = match (&t.k, op) {
                (K::List(e), Op::BeginList | Op::Push) => (V::L(vec![]), e(), Mode::Elem),
                (K::Map(_, k, _), Op::BeginMap | Op::PushKey) => (V::M(vec![]), k(), Mode::Key),
                _ => return false,
            };
            if none {
                return false;
            }
            let f = m.cur_mut();
            if let Pg::Unset = f.pg {
                f.pg = Pg::Full(v);
            }
            if matches!(op, Op::Push | Op::PushKey) {
                m.fr.push(Fr { t: T2(inner), mode, pg: Pg::Unset, bit: false });
            }
        }
        Op::PushVal => {
            if mode != Mode::Key || value(t, &f.pg).is_none() {
                return false;
            }
            let K::Map(_, _, e) = &m.fr[m.fr.len() - 2].t.0.k else { panic!("harness: map") };
            m.fr.push(Fr { t: T2(e()), mode: Mode::Val, pg: Pg::Unset, bit: false });
        }
        Op::PushSome => {
            let K::Opt(e) = &t.k else { return false };
            if none {
                return false;
            }
            m.fr.push(Fr { t: T2(e()), mode: Mode::Some, pg: Pg::Unset, bit: false });
        }
        Op::NoneInstead => {
            if mode != Mode::Some || value(t, &f.pg).is_some() {
                return false;
            }
            m.fr.pop();
            m.cur_mut().pg = Pg::Full(V::none());
            m.fr.push(Fr { t: T2(t), mode: Mode::None, pg: Pg::Unset, bit: false });
        }
        Op::Pop => match mode {
            Mode::Key => return false,
            Mode::Elem | Mode::Val | Mode::Some if value(t, &f.pg).is_none() => return false,
            _ => m.close(),
        },
    }
    true
}

pub type W = Wip<'static>;

fn perform(w: W, op: &Op) -> Result<W, ReflectError> {
    match op {
        Op::Field(i) => w.field(*i),
        Op::Named(n) => w.field_named(n),
        Op::Variant(i) => w.variant(*i),
        Op::VariantNamed(n) => w.variant_named(n),
        Op::Put(t, v, how) => {
            let t = t.0;
            if *how == 0 {
                return (t.put)(w, v);
            }
            let m = Mem::of(t, v);
            if *how == 1 {
                let r = w.put_shape(m.konst(), t.sh());
                if r.is_err() {
                    unsafe { (t.dropp)(m.p) };
                }
                return r;
            }
            // dropped however this ends
            struct Ours<'a>(T, &'a Mem);
            impl Drop for Ours<'_> {
                fn drop(&mut self) {
                    unsafe { (self.0.dropp)(self.1.p) };
                }
            }
            let ours = Ours(t, &m);
            w.put_peek(unsafe { Peek::unchecked_new(ours.1.konst(), t.sh()) })
        }
        Op::Parse(s, _) => w.parse(s),
        Op::Default(false) => w.put_default(),
        Op::Default(true) => {
            let f = w.shape().vtable.default_in_place.unwrap_or(no_default);
            w.put_from_fn(f)
        }
        Op::Missing => w.put_missing_fields_from_default(),
        Op::EmptyList => w.put_empty_list(),
        Op::BeginList => w.begin_pushback(),
        Op::Push => w.push(),
        Op::EmptyMap => w.put_empty_map(),
        Op::BeginMap => w.begin_map_insert(),
        Op::PushKey => w.push_map_key(),
        Op::PushVal => w.push_map_value(),
        Op::PushSome => w.push_some(),
        Op::NoneInstead => w.pop_some_push_none(),
        Op::Pop => w.pop(),
    }
}
unsafe fn no_default(_: PtrUninit<'_>) -> PtrMut<'_> {
    panic!("harness: no default")
}

/// What the builder says about where it is.
fn look(w: &W, m: &M, s: &mut Src) -> R {
    let f = match m.cur() {
        Some(f) => f,
        None => {
            ensure!(w.frames_count() == 0 && w.path() == "$", "answers:popped", "after the root was popped: {} frames, path {}", w.frames_count(), w.path());
            return Ok(());
        }
    };
    let t = f.t.0;
    let at = m.path();
    let (p, n) = tracked(|| (w.path(), w.frames_count()));
    ensure!(p == at, "answers:path", "path() is {p}, we are at {at}");
    ensure!(n == m.fr.len(), "answers:frames", "frames_count() is {n}, want {}", m.fr.len());
    ensure!(w.shape() == t.sh(), "answers:shape", "at {at}: shape() is {}, want {}", w.shape(), t.name);
    ensure!(w.in_option() == (f.mode == Mode::Some), "answers:in_option", "at {at}: in_option() {}", w.in_option());
    let mode = match (w.mode(), f.mode) {
        (FrameMode::Root, Mode::Root)
        | (FrameMode::Field, Mode::Field(_))
        | (FrameMode::ListElement, Mode::Elem)
        | (FrameMode::MapKey, Mode::Key)
        | (FrameMode::OptionSome, Mode::Some)
        | (FrameMode::OptionNone, Mode::None) => true,
        (FrameMode::MapValue { index }, Mode::Val) => index == m.fr.len() - 2,
        _ => false,
    };
    ensure!(mode, "answers:mode", "at {at}: mode() is {:?}, want {:?}", w.mode(), f.mode);
    if f.mode == Mode::None {
        return Ok(());
    }
    let fs = fds(t, &f.pg);
    for (i, fd) in fs.iter().enumerate() {
        let set = match &f.pg {
            Pg::Unset => false,
            Pg::Full(_) => true,
            Pg::St(x) | Pg::En(_, x) => closed(fd.t(), &x[i]).is_some(),
        };
        let got = w.is_field_set(i);
        ensure!(matches!(got, Ok(b) if b == set), "answers:is_field_set", "at {at}: is_field_set({i} = {}) is {got:?}, want {set}", fd.name);
        let got = w.field_index(fd.name);
        ensure!(got == Some(i), "answers:field_index", "at {at}: field_index({}) is {got:?}, want {i}", fd.name);
    }
    let bad = fs.len() + [0, 1, 63, usize::MAX / 2][s.below(4)];
    ensure!(w.is_field_set(bad).is_err(), "answers:is_field_set", "at {at}: is_field_set({bad}) of {} answers", fs.len());
    ensure!(w.field_index("no such field").is_none(), "answers:field_index", "at {at}: unknown field found");
    if !fs.is_empty() {
        let n = fs[s.below(fs.len())].name;
        let n = s.near_name(n);
        let want = fs.iter().position(|f| f.name == n);
        ensure!(tracked(|| w.field_index(&n)) == want, "answers:field_index", "at {at}: field_index({n:?}) is {:?}, want {want:?}", w.field_index(&n));
    }
    match &t.k {
        K::En(_, vs) => {
            let sel = match &f.pg {
                Pg::En(i, _) | Pg::Full(V::En(i, _)) => Some(vs[*i].name),
                _ => None,
            };
            let got = w.selected_variant().map(|v| v.name);
            ensure!(got == sel, "answers:selected_variant", "at {at}: selected variant {got:?}, want {sel:?}");
            for (i, v) in vs.iter().enumerate() {
                let got = w.find_variant(v.name).map(|(i, v)| (i, v.name));
                ensure!(got == Some((i, v.name)), "answers:find_variant", "at {at}: find_variant({}) {got:?}", v.name);
            }
            ensure!(w.find_variant("no such variant").is_none(), "answers:find_variant", "at {at}: unknown variant found");
            if !vs.is_empty() {
                let n = vs[s.below(vs.len())].name;
                let n = s.near_name(n);
                let want = vs.iter().position(|v| v.name == n);
                let got = w.find_variant(&n).map(|(i, _)| i);
                ensure!(got == want, "answers:find_variant", "at {at}: find_variant({n:?}) is {got:?}, want {want:?}");
            }
        }
        _ => {
            ensure!(w.selected_variant().is_none(), "answers:selected_variant", "at {at}: {} has a variant", t.name);
            ensure!(w.find_variant("A").is_none(), "answers:find_variant", "at {at}: {} has variants", t.name);
        }
    }
    let e = w.element_shape().ok();
    let want = if let K::List(e) = &t.k { Some(e().sh()) } else { None };
    ensure!(e == want, "answers:element_shape", "at {at}: element_shape of {} wrong", t.name);
    let e = w.key_shape().ok();
    let want = if let K::Map(_, k, _) = &t.k { Some(k().sh()) } else { None };
    ensure!(e == want, "answers:key_shape", "at {at}: key_shape of {} wrong", t.name);
    Ok(())
}

fn o() -> Opt {
    Opt { max_elems: 2, depth: 2, str_max: 6, ..Opt::default() }
}

/// Zero-sized structs with fields share their address with their neighbours: they are only put whole.
pub fn enterable(t: T) -> bool {
    t.size > 0 || matches!(&t.k, K::St(_, f) if f.is_empty())
}

/// Text that parses to this scalar.
pub fn text_of(t: T, v: &V) -> Option<String> {
    let K::Sc(sk) = &t.k else { return None };
    t.sh().vtable.parse?;
    Some(match (sk, v) {
        (Sk::Bool, V::B(b)) => b.to_string(),
        (Sk::UInt(..), V::U(u)) => u.to_string(),
        (Sk::Int(..), V::I(i)) => i.to_string(),
        (Sk::F32, V::F32(b)) if f32::from_bits(*b).is_finite() => format!("{:?}", f32::from_bits(*b)),
        (Sk::F64, V::F64(b)) if f64::from_bits(*b).is_finite() => format!("{:?}", f64::from_bits(*b)),
        (Sk::Trk, V::U(u)) => format!("trk#{u}"),
        (Sk::Char, V::C(c)) => c.to_string(),
        (Sk::Str, V::S(x)) if t.name == "String" => x.clone(),
        (Sk::Ip(_), V::S(x)) => x.clone(),
        _ => return None,
    })
}
fn text(t: T, s: &mut Src) -> Option<(String, V)> {
    if !matches!(t.k, K::Sc(_)) {
        return None;
    }
    let v = gen_v(t, s, Opt { finite: true, ..o() });
    text_of(t, &v).map(|x| (x, v))
}

/// One step towards a finished value.
fn forward(m: &M, s: &mut Src, small: bool) -> Op {
    let f = m.cur().unwrap();
    let t = f.t.0;
    let put = |t: T, s: &mut Src| Op::Put(T2(t), gen_v(t, s, o()), if t.sh().vtable.clone_into.is_some() { [0, 0, 1, 2][s.below(4)] } else { s.below(2) as u8 });
    if f.mode == Mode::None {
        return Op::Pop;
    }
    if value(t, &f.pg).is_some() {
        return if f.mode == Mode::Key { Op::PushVal } else { Op::Pop };
    }
    let composite = matches!(t.k, K::St(..) | K::En(..) | K::List(_) | K::Map(..) | K::Opt(_));
    let whole = m.can_init() && (small || s.chance(1, if composite { 8 } else { 4 }));
    if whole || !enterable(t) {
        if known_default(t).is_some() && has_default(t) && s.chance(1, 4) {
            return Op::Default(s.bool());
        }
        return put(t, s);
    }
    match &t.k {
        K::St(_, fs) => {
            if has_default(t) && known_default(t).is_some() && s.chance(1, 6) {
                return Op::Missing;
            }
            let open: Vec<usize> = (0..fs.len())
                .filter(|i| match &f.pg {
                    Pg::St(x) => closed(fs[*i].t(), &x[*i]).is_none(),
                    _ => true,
                })
                .collect();
            let i = open[s.below(open.len())];
            if s.bool() { Op::Field(i) } else { Op::Named(fs[i].name.to_string()) }
        }
        K::En(_, vs) => match &f.pg {
            Pg::En(_, x) => {
                let fs = fds(t, &f.pg);
                let open: Vec<usize> = (0..fs.len()).filter(|i| closed(fs[*i].t(), &x[*i]).is_none()).collect();
                let i = open[s.below(open.len())];
                if s.bool() { Op::Field(i) } else { Op::Named(fs[i].name.to_string()) }
            }
            _ => {
                let i = s.below(vs.len());
                if s.bool() { Op::Variant(i) } else { Op::VariantNamed(vs[i].name.to_string()) }
            }
        },
        K::List(_) => [Op::EmptyList, Op::BeginList, Op::Push, Op::Push][s.below(4)].clone(),
        K::Map(..) => [Op::EmptyMap, Op::BeginMap, Op::PushKey, Op::PushKey][s.below(4)].clone(),
        K::Opt(e) => match s.below(4) {
            0 => put(e(), s),
            _ => Op::PushSome,
        },
        _ => {
            if s.bool() {
                if let Some((x, v)) = text(t, s) {
                    return Op::Parse(x, Some(v));
                }
            }
            put(t, s)
        }
    }
}

/// Any operation at all, with arguments that often fit.
fn any_op(m: &M, s: &mut Src) -> Op {
    let f = m.cur().unwrap();
    let t = f.t.0;
    let n = fds(t, &f.pg).len();
    let nv = if let K::En(_, vs) = &t.k { vs.len() } else { 0 };
    loop {
        return match s.below(22) {
            0 | 1 => Op::Field(if s.chance(1, 4) { n + s.below(2) } else { s.below(n.max(1)) }),
            2 => match (s.chance(1, 4), n) {
                (true, _) | (_, 0) => Op::Named(s.pick(&["no such field", "", "0", "A", "99"]).to_string()),
                _ => {
                    let n = fds(t, &f.pg)[s.below(n)].name;
                    Op::Named(if s.chance(1, 3) { s.near_name(n) } else { n.to_string() })
                }
            },
            3 => Op::Variant(if s.chance(1, 4) { nv + s.below(3) } else { s.below(nv.max(1)) }),
            4 => match &t.k {
                K::En(_, vs) if s.chance(3, 4) => {
                    let n = vs[s.below(nv)].name;
                    Op::VariantNamed(if s.chance(1, 3) { s.near_name(n) } else { n.to_string() })
                }
                _ => Op::VariantNamed(s.pick(&["no such variant", "", "a"]).to_string()),
            },
            5 | 6 => {
                let pt = match (s.below(4), &t.k) {
                    (0, _) => (pick_root(s).ty)(),
                    (1, K::Opt(e) | K::List(e) | K::Arc(e)) => e(),
                    _ => t,
                };
                Op::Put(T2(pt), gen_v(pt, s, o()), s.below(3) as u8)
            }
            7 => match text(t, s) {
                Some((x, v)) => {
                    let num = matches!(&t.k, K::Sc(Sk::Bool | Sk::UInt(..) | Sk::Int(..) | Sk::F32 | Sk::F64 | Sk::Ip(_) | Sk::Trk));
                    if num && s.chance(1, 3) { Op::Parse(s.pick(&["", "zz", "1 2", "0x1", "--1", "999999999999999999999999999999999999999999x"]).to_string(), None) } else { Op::Parse(x, Some(v)) }
                }
                None if t.sh().vtable.parse.is_none() => Op::Parse("1".into(), None),
                None => continue,
            },
            8 | 9 => {
                if has_default(t) && known_default(t).is_none() {
                    continue;
                }
                Op::Default(has_default(t) && s.bool())
            }
            10 => {
                if has_default(t) && known_default(t).is_none() {
                    continue;
                }
                Op::Missing
            }
            11 => Op::EmptyList,
            12 => Op::BeginList,
            13 => Op::Push,
            14 => Op::EmptyMap,
            15 => Op::BeginMap,
            16 => Op::PushKey,
            17 => Op::PushVal,
            18 => Op::PushSome,
            19 => Op::NoneInstead,
            _ => Op::Pop,
        };
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Goal {
    Build,
    Errors,
    Abandon,
}

struct Hist {
    log: Vec<String>,
    odd: usize,
    maxdepth: usize,
    /// the how manieth call of the values' own code panics
    fuse: u32,
}

fn check_error(e: &ReflectError, miss: &Missing) -> R {
    let txt = e.to_string();
    let ok = match (e, miss) {
        (_, Missing::Key) => true,
        (ReflectError::UninitializedField { shape, field_name }, Missing::Parts(p)) => p.iter().any(|(t, n)| t.sh() == *shape && *n == Some(*field_name)),
        (ReflectError::UninitializedEnumField { shape, field_name, .. }, Missing::Parts(p)) => p.iter().any(|(t, n)| t.sh() == *shape && *n == Some(*field_name)),
        (ReflectError::NoVariantSelected { shape } | ReflectError::UninitializedValue { shape }, Missing::Parts(p)) => p.iter().any(|(t, n)| t.sh() == *shape && n.is_none()),
        _ => false,
    };
    let want: Vec<String> = match miss {
        Missing::Parts(p) => p.iter().map(|(t, n)| format!("{}{}", t.name, n.map(|n| format!(".{n}")).unwrap_or_default())).collect(),
        Missing::Key => vec!["a map value".into()],
    };
    ensure!(ok, "wrong-part", "the error does not name a missing part: {txt}; missing: {want:?}");
    Ok(())
}

fn finish(root: T, m: &M, r: Result<HeapValue<'static>, ReflectError>, s: &mut Src) -> R {
    match (r, m.build()) {
        (Ok(hv), Ok(v)) => {
            let inv = root.invariant.is_none_or(|f| f(&v));
            ensure!(inv, "invariant-ignored", "built {v:?}, which its invariants refuse");
            if s.chance(1, 8) {
                // asked for as another type: refused, and released
                let t = (pick_root(s).ty)();
                if t.id != root.id {
                    let refused = tracked(|| (t.materialize)(hv).is_err());
                    ensure!(refused, "materialized-as-other", "a built {} came out as {}", root.name, t.name);
                } else {
                    tracked(|| drop(hv));
                }
            } else if s.bool() {
                let got = tracked(|| (root.materialize)(hv));
                ensure!(got.as_ref().ok() == Some(&v), "value", "built {got:?}, the parts supplied are {v:?}");
            } else {
                let got = tracked(|| (root.read)(hv.peek()));
                ensure!(got.as_ref().ok() == Some(&v), "value", "built {got:?}, the parts supplied are {v:?}");
                tracked(|| drop(hv));
            }
            Ok(())
        }
        (Ok(hv), Err(x)) => {
            // what is in there is not a value: let nothing touch it
            std::mem::forget(hv);
            let want: Vec<String> = match x {
                Missing::Parts(p) => p.iter().map(|(t, n)| format!("{}{}", t.name, n.map(|n| format!(".{n}")).unwrap_or_default())).collect(),
                Missing::Key => vec!["a map value".into()],
            };
            fail("built-incomplete", format!("build succeeded with parts missing: {want:?}"))
        }
        (Err(e), Ok(v)) => {
            let inv = root.invariant.is_none_or(|f| f(&v));
            ensure!(!inv, "build-refused", "build refused the complete value {v:?}: {e}");
            ensure!(matches!(e, ReflectError::InvariantViolation { .. }), "invariant-error", "{v:?} breaks its invariants, but the error is {e}");
            Ok(())
        }
        (Err(e), Err(miss)) => check_error(&e, &miss),
    }
}

fn history(root: T, s: &mut Src, goal: Goal, h: &mut Hist) -> R {
    let mut fuse = h.fuse;
    let mut m = M { fr: vec![Fr { t: T2(root), mode: Mode::Root, pg: Pg::Unset, bit: false }], root: None };
    let mut w: W = tracked(|| Wip::alloc_shape(root.sh()));
    // how many free steps, after which the history heads for its end
    let free = s.below(40);
    let mut left = 400;
    loop {
        let steps = 400 - left;
        left -= 1;
        h.maxdepth = h.maxdepth.max(m.fr.len());
        look(&w, &m, s)?;
        let done = m.fr.len() == 1 && value(root, &m.fr[0].pg).is_some();
        let stop = match goal {
            Goal::Build => done && (steps >= free || s.chance(1, 4)),
            _ => (steps >= free && s.chance(1, 3)) || s.chance(1, 60),
        } || m.fr.is_empty()
            || left == 0;
        if stop {
            break;
        }
        let op = if done || steps < free && s.chance(1, 3) { any_op(&m, s) } else { forward(&m, s, steps > free + 20 || m.fr.len() > 8) };
        // stepping out of the root ends the building
        if m.fr.len() == 1 && matches!(op, Op::Pop) && (goal == Goal::Build || s.chance(2, 3)) {
            continue;
        }
        if let Op::Field(_) | Op::Named(_) = op {
            if !enterable(m.cur().unwrap().t.0) {
                continue;
            }
        }
        let mut next = M { fr: m.fr.clone(), root: m.root.clone() };
        let legal = apply(&mut next, &op);
        if !legal && (goal != Goal::Errors || steps < free && !s.chance(1, 6)) {
            continue;
        }
        h.log.push(format!("{op:?}"));
        let at = m.path();
        corpus::trk::arm(fuse);
        let r = tracked(|| perform(w, &op));
        fuse = corpus::trk::disarm();
        match (r, legal) {
            (Ok(x), true) => {
                w = x;
                if !matches!(op, Op::Field(_) | Op::Named(_) | Op::Put(..) | Op::Pop) {
                    h.odd += 1;
                }
                m = next;
            }
            (Ok(x), false) => {
                std::mem::forget(x);
                return fail(format!("accepted:{}", op.kind()), format!("at {at}: {op:?} was accepted"));
            }
            (Err(e), true) => return fail(format!("refused:{}", op.kind()), format!("at {at}: {op:?} was refused: {e}")),
            (Err(e), false) => {
                let t = e.to_string();
                ensure!(!t.is_empty(), "error-text", "empty error");
                h.log.push("refused".into());
                return Ok(());
            }
        }
    }
    if goal == Goal::Abandon {
        if m.build().is_ok() && s.bool() {
            h.log.push("build, dropped".into());
            let r = tracked(|| w.build());
            tracked(|| drop(r));
        } else {
            h.log.push("dropped".into());
            tracked(|| drop(w));
        }
        return Ok(());
    }
    if goal == Goal::Errors && m.fr.is_empty() && s.bool() {
        // nothing can be done once the root is popped, and nothing happens either
        let ops = [Op::Field(0), Op::Named("a".into()), Op::Variant(0), Op::Put(T2(root), gen_v(root, s, o()), 0), Op::Parse("1".into(), None), Op::Default(false), Op::Missing, Op::EmptyList, Op::BeginList, Op::Push, Op::EmptyMap, Op::BeginMap, Op::PushKey, Op::PushVal, Op::PushSome, Op::NoneInstead, Op::Pop];
        let op = s.pick(&ops).clone();
        h.log.push(format!("{op:?}"));
        let r = tracked(|| perform(w, &op));
        let ok = r.is_ok();
        tracked(|| drop(r));
        ensure!(!ok, format!("accepted:{}", op.kind()), "{op:?} was accepted after the root was popped");
        return Ok(());
    }
    h.log.push("build".into());
    let r = tracked(|| w.build());
    finish(root, &m, r, s)
}

fn run(s: &mut Src, cx: &mut Ctx, goal: Goal, fuse: u32) -> R {
    let mut root = (pick_root(s).ty)();
    let dull = |t: T| matches!(t.k, K::Sc(_) | K::Slice(_) | K::Array(..) | K::Arc(_)) || fuse > 0 && !t.any(&mut |t| matches!(t.k, K::Sc(Sk::Trk)));
    for _ in 0..60 {
        if !dull(root) || s.chance(1, 8) {
            break;
        }
        root = (pick_root(s).ty)();
    }
    corpus::trk::reset();
    let mut h = Hist { log: vec![], odd: 0, maxdepth: 0, fuse };
    let scope = Scope::begin();
    let res = guarded(|| untracked(|| history(root, s, goal, &mut h)));
    let mut rep = scope.end();
    let text = format!("{}: {}", root.name, h.log.join(", "));
    if h.log.len() > 3 {
        cx.nontrivial();
        cx.key(&text);
    }
    cx.sample(|| text.clone());
    cx.label(match h.log.len() {
        0..=1 => "1 step",
        2..=5 => "2-5 steps",
        6..=20 => "6-20 steps",
        _ => "over 20 steps",
    });
    if h.maxdepth > 3 {
        cx.label("deeper than 3");
    }
    if h.log.last().is_some_and(|l| l == "refused") {
        cx.label("an operation refused");
    }
    match res {
        Ok(Ok(())) => {}
        Ok(Err(f)) => return fail(f.sig, format!("{} -- {text}", f.msg)),
        Err(p) if p.0 == corpus::trk::BLOWN => {
            // what someone else's code was doing may be lost to its panic, but nothing goes twice
            cx.label("blown");
            rep.leaked = 0;
            corpus::trk::all_gone();
        }
        Err(p) => return fail(panic_sig(&p), format!("panicked: {} at {} -- {text}", p.0, p.1)),
    }
    mem_check(&rep, "history").map_err(|f| Fail { sig: f.sig, msg: format!("{} -- {text}", f.msg) })
}

fn build(s: &mut Src, cx: &mut Ctx) -> R {
    run(s, cx, Goal::Build, 0)
}
fn errors(s: &mut Src, cx: &mut Ctx) -> R {
    run(s, cx, Goal::Errors, 0)
}
fn abandon(s: &mut Src, cx: &mut Ctx) -> R {
    run(s, cx, Goal::Abandon, 0)
}
fn panics(s: &mut Src, cx: &mut Ctx) -> R {
    let n = if s.chance(2, 3) { 1 } else { s.range(2, 9) };
    run(s, cx, Goal::Abandon, n as u32)
}

pub const W01: Prop = Prop {
    id: "W01",
    targets: &[Target { name: "build", quick: 400_000, thorough: 8_000_000, rule: "a random walk over the legal builder operations of a random root type (re-entry, replacement, variant changes, defaults, parsing included) until complete; answers compared with the model after every step, the value at the end. Non-trivial: more than three operations", f: build }, crate::w4::SPELL, Target { name: "huge", quick: 20_000, thorough: 400_000, rule: "values with fields, payloads and elements of more than 64 KiB (structs, tuples, enums, lists, maps, options of them), built part by part in random order: the value comes out. Every case counts", f: crate::huge::builds }],
};
pub const W02: Prop = Prop {
    id: "W02",
    targets: &[Target { name: "errors", quick: 400_000, thorough: 8_000_000, rule: "a random walk over all builder operations with arbitrary arguments, ended by the first one that does not fit (must be refused) or by a build at a random point (must succeed iff the model says nothing is missing, or name a missing part). Non-trivial: more than three operations", f: errors }],
};
pub const W03: Prop = Prop {
    id: "W03",
    targets: &[
        Target { name: "abandon", quick: 400_000, thorough: 8_000_000, rule: "a random walk abandoned at a random point (builder or built value dropped); tracking allocator and drop-counting values. Non-trivial: more than three operations", f: abandon },
        Target { name: "panics", quick: 200_000, thorough: 4_000_000, rule: "a random walk over types with drop-counting parts, one of whose own operations (default, parse, comparison, hash, called by the builder) panics: unwinding drops every value once. Non-trivial: more than three operations", f: panics },
        Target { name: "refused", quick: 200_000, thorough: 4_000_000, rule: "the same, ended by a refused operation or a build that may fail", f: errors },
    ],
};
