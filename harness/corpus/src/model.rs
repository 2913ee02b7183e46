use facet_core::{Facet, PtrUninit, Shape};
use facet_reflect::{HeapValue, Peek, ReflectError, Wip};
use std::any::TypeId;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash};
use std::net::*;
use std::num::NonZero;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vpcore::alloc::untracked;
use vpcore::src::Src;

/// A value, as plain data.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Unit,
    B(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    C(char),
    S(String),
    St(Vec<V>),
    En(usize, Vec<V>),
    L(Vec<V>),
    M(Vec<(V, V)>),
    O(Option<Box<V>>),
    P(Box<V>),
}

impl V {
    pub fn some(v: V) -> V {
        V::O(Some(Box::new(v)))
    }
    pub fn none() -> V {
        V::O(None)
    }
    pub fn f32(f: f32) -> V {
        V::F32(f.to_bits())
    }
    pub fn f64(f: f64) -> V {
        V::F64(f.to_bits())
    }
    pub fn fields(&self) -> &[V] {
        match self {
            V::St(v) | V::En(_, v) | V::L(v) => v,
            _ => panic!("harness: no fields in {self:?}"),
        }
    }
    pub fn u(&self) -> u128 {
        match self {
            V::U(u) => *u,
            _ => panic!("harness: not unsigned {self:?}"),
        }
    }
    pub fn i(&self) -> i128 {
        match self {
            V::I(u) => *u,
            _ => panic!("harness: not signed {self:?}"),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            V::S(s) => s,
            _ => panic!("harness: not a string {self:?}"),
        }
    }
    /// Number of nodes.
    pub fn size(&self) -> usize {
        1 + match self {
            V::St(v) | V::En(_, v) | V::L(v) => v.iter().map(|x| x.size()).sum(),
            V::M(m) => m.iter().map(|(k, v)| k.size() + v.size()).sum(),
            V::O(Some(x)) | V::P(x) => x.size(),
            _ => 0,
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&V) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            V::St(v) | V::En(_, v) | V::L(v) => v.iter().any(|x| x.any(f)),
            V::M(m) => m.iter().any(|(k, v)| k.any(f) || v.any(f)),
            V::O(Some(x)) | V::P(x) => x.any(f),
            _ => false,
        }
    }
    /// NaN payloads do not survive every codec; all NaNs are one value, when asked for.
    pub fn canon_nan(&self) -> V {
        match self {
            V::F32(b) if f32::from_bits(*b).is_nan() => V::f32(f32::NAN),
            V::F64(b) if f64::from_bits(*b).is_nan() => V::f64(f64::NAN),
            V::St(v) => V::St(v.iter().map(|x| x.canon_nan()).collect()),
            V::En(i, v) => V::En(*i, v.iter().map(|x| x.canon_nan()).collect()),
            V::L(v) => V::L(v.iter().map(|x| x.canon_nan()).collect()),
            V::M(m) => V::M(m.iter().map(|(k, v)| (k.canon_nan(), v.canon_nan())).collect()),
            V::O(Some(x)) => V::some(x.canon_nan()),
            V::P(x) => V::P(Box::new(x.canon_nan())),
            o => o.clone(),
        }
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Unit => write!(f, "()"),
            V::B(b) => write!(f, "{b}"),
            V::U(u) => write!(f, "{u}"),
            V::I(i) => write!(f, "{i:+}"),
            V::F32(b) => write!(f, "{:?}f32", f32::from_bits(*b)),
            V::F64(b) => write!(f, "{:?}f64", f64::from_bits(*b)),
            V::C(c) => write!(f, "{c:?}"),
            V::S(s) => write!(f, "{s:?}"),
            V::St(v) => {
                write!(f, "St")?;
                f.debug_list().entries(v).finish()
            }
            V::En(i, v) => {
                write!(f, "#{i}")?;
                f.debug_list().entries(v).finish()
            }
            V::L(v) => f.debug_list().entries(v).finish(),
            V::M(m) => f.debug_map().entries(m.iter().map(|(k, v)| (k, v))).finish(),
            V::O(None) => write!(f, "None"),
            V::O(Some(x)) => write!(f, "Some({x:?})"),
            V::P(x) => write!(f, "*{x:?}"),
        }
    }
}

pub type T = &'static Ty;
pub type TF = fn() -> T;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sk {
    Unit,
    Bool,
    UInt(u32, bool), // bits, nonzero
    Int(u32, bool),
    F32,
    F64,
    Char,
    Str,
    Ip(u8),
    Path,
    Trk,
    /// not generated into, only one value
    Zst,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stk {
    Named,
    TupleStruct,
    Unit,
    Tuple,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Vk {
    Unit,
    Tuple,
    Named,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dflt {
    No,
    Trait,
    Fn,
}

pub struct Fd {
    pub name: &'static str,
    pub ty: TF,
    /// offset in the struct (usize::MAX: not known statically, enum payloads)
    pub offset: usize,
    pub rename: Option<&'static str>,
    pub sensitive: bool,
    pub positional: bool,
    pub named: bool,
    pub short: Option<&'static str>,
    pub default: Dflt,
    /// the value the declared default gives
    pub default_v: Option<fn() -> V>,
}

impl Fd {
    pub fn new(name: &'static str, ty: TF, offset: usize) -> Fd {
        Fd { name, ty, offset, rename: None, sensitive: false, positional: false, named: false, short: None, default: Dflt::No, default_v: None }
    }
    pub fn key(&self) -> &'static str {
        self.rename.unwrap_or(self.name)
    }
    pub fn t(&self) -> T {
        (self.ty)()
    }
}

pub struct Vd {
    pub name: &'static str,
    pub kind: Vk,
    pub disc: i64,
    pub fields: Vec<Fd>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mk {
    Hash,
    BTree,
}

pub enum K {
    Sc(Sk),
    St(Stk, Vec<Fd>),
    En(&'static str, Vec<Vd>),
    List(TF),
    Slice(TF),
    Array(TF, usize),
    Map(Mk, TF, TF),
    Opt(TF),
    Arc(TF),
}

pub struct Ty {
    pub name: &'static str,
    pub k: K,
    pub id: TypeId,
    pub rust_name: &'static str,
    pub needs_drop: bool,
    pub size: usize,
    pub align: usize,
    pub shape: fn() -> &'static Shape,
    /// put a whole value made from the model value
    pub put: fn(Wip<'static>, &V) -> Result<Wip<'static>, ReflectError>,
    pub materialize: fn(HeapValue<'static>) -> Result<V, ReflectError>,
    /// make the value, look at it through Peek, drop it
    pub with_peek: fn(&V, &mut dyn FnMut(Peek<'static>)),
    /// native access to raw memory, never through facet
    pub write: unsafe fn(*mut u8, &V),
    pub readp: unsafe fn(*const u8) -> V,
    pub dropp: unsafe fn(*mut u8),
    /// put the first value through a typed pointer, replace it by the second, move that out, put the
    /// first again, copy its bytes elsewhere and drop it there: what was read after each step
    pub pointers: fn(&V, &V) -> Result<Vec<V>, &'static str>,
    /// read a Peek as this type
    pub read: fn(Peek<'static>) -> Result<V, ReflectError>,
    /// is the shape this type's? does `assert_type` say so? is the builder's current slot of this type?
    pub is_type: fn(&'static Shape) -> bool,
    pub assert_type: fn(&'static Shape),
    pub current_is: fn(&Wip<'static>) -> bool,
    pub deny_unknown: bool,
    pub container_default: bool,
    /// native `Default`, if any
    pub default: Option<fn() -> V>,
    pub invariant: Option<fn(&V) -> bool>,
}

impl Ty {
    pub fn of<X: Gt>(name: impl Into<String>, k: K) -> Ty {
        Ty {
            name: Box::leak(name.into().into_boxed_str()),
            k,
            id: TypeId::of::<X>(),
            rust_name: std::any::type_name::<X>(),
            needs_drop: std::mem::needs_drop::<X>(),
            size: std::mem::size_of::<X>(),
            align: std::mem::align_of::<X>(),
            shape: || X::SHAPE,
            put: |w, v| w.put(X::from_v(v)),
            materialize: |h| {
                let x = h.materialize::<X>()?;
                Ok(untracked(|| x.to_v()))
            },
            with_peek: |v, f| {
                let x = X::from_v(v);
                let p = Peek::new(unsafe { &*(&x as *const X) });
                f(p)
            },
            write: |p, v| unsafe { (p as *mut X).write(X::from_v(v)) },
            readp: |p| untracked(|| unsafe { (*(p as *const X)).to_v() }),
            dropp: |p| unsafe { std::ptr::drop_in_place(p as *mut X) },
            pointers: |a, b| unsafe {
                let seen = |x: &X| untracked(|| x.to_v());
                let mut out = untracked(Vec::new);
                let mut log = |v: V| untracked(|| out.push(v));
                let (mut u, mut u2) = (std::mem::MaybeUninit::<X>::uninit(), std::mem::MaybeUninit::<X>::uninit());
                let at = u.as_mut_ptr() as *const u8;
                let slot = PtrUninit::from_maybe_uninit(&mut u);
                let m = slot.put(X::from_v(a));
                log(seen(m.get::<X>()));
                let here = slot.as_byte_ptr() == at && slot.as_mut_byte_ptr() as *const u8 == at && m.as_byte_ptr() == at && m.as_mut_byte_ptr() as *const u8 == at;
                let m = m.replace(X::from_v(b));
                log(seen(&*m.as_ptr::<X>()));
                let stays = m.as_byte_ptr() == at && m.as_const().as_byte_ptr() == at && m.as_const().as_ptr::<X>() as *const u8 == at;
                let moved = m.read::<X>();
                log(seen(&moved));
                drop(moved);
                let m = slot.put(X::from_v(a));
                log(seen(m.as_mut::<X>()));
                let c = PtrUninit::new(u2.as_mut_ptr()).copy_from(m.as_const(), X::SHAPE);
                log(seen(c.as_const().get::<X>()));
                let left = c.drop_in_place::<X>();
                if !here {
                    return Err("put elsewhere");
                }
                if !stays {
                    return Err("replaced elsewhere");
                }
                if left.as_byte_ptr() != u2.as_ptr() as *const u8 {
                    return Err("dropped elsewhere");
                }
                Ok(out)
            },
            read: |p| p.get::<X>().map(|x| untracked(|| x.to_v())),
            is_type: |s| s.is_type::<X>(),
            assert_type: |s| s.assert_type::<X>(),
            current_is: |w| w.current_is_type::<X>(),
            deny_unknown: false,
            container_default: false,
            default: None,
            invariant: None,
        }
    }
    pub fn strukt<X: Gt>(name: &str, kind: Stk, fields: Vec<Fd>) -> Ty {
        Ty::of::<X>(name, K::St(kind, fields))
    }
    pub fn enom<X: Gt>(name: &str, repr: &'static str, vs: Vec<Vd>) -> Ty {
        Ty::of::<X>(name, K::En(repr, vs))
    }
    pub fn sh(&self) -> &'static Shape {
        (self.shape)()
    }
    /// Does some part of the type satisfy `f`? (recursive types are visited once)
    pub fn any(&'static self, f: &mut dyn FnMut(T) -> bool) -> bool {
        fn go(t: T, seen: &mut Vec<TypeId>, f: &mut dyn FnMut(T) -> bool) -> bool {
            if seen.contains(&t.id) {
                return false;
            }
            seen.push(t.id);
            if f(t) {
                return true;
            }
            for c in t.children() {
                if go(c, seen, f) {
                    return true;
                }
            }
            false
        }
        go(self, &mut vec![], f)
    }
    pub fn children(&self) -> Vec<T> {
        match &self.k {
            K::Sc(_) => vec![],
            K::St(_, f) => f.iter().map(|f| f.t()).collect(),
            K::En(_, vs) => vs.iter().flat_map(|v| v.fields.iter().map(|f| f.t())).collect(),
            K::List(t) | K::Slice(t) | K::Array(t, _) | K::Opt(t) | K::Arc(t) => vec![t()],
            K::Map(_, k, v) => vec![k(), v()],
        }
    }
}

/// Ground truth about a type.
pub trait Gt: Facet + Sized + 'static {
    fn make_ty() -> Ty;
    fn to_v(&self) -> V;
    fn from_v(v: &V) -> Self;
}

thread_local! {
    /// hash maps become model values in their own iteration order rather than sorted
    pub static NATIVE_ORDER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static TYS: RefCell<HashMap<TypeId, T>> = RefCell::new(HashMap::new());
    static STRS: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
}

pub fn ty<X: Gt>() -> T {
    untracked(|| {
        let id = TypeId::of::<X>();
        if let Some(t) = TYS.with(|m| m.borrow().get(&id).copied()) {
            return t;
        }
        let t: T = Box::leak(Box::new(X::make_ty()));
        TYS.with(|m| m.borrow_mut().insert(id, t));
        t
    })
}

pub fn intern(s: &str) -> &'static str {
    untracked(|| {
        STRS.with(|m| {
            let mut m = m.borrow_mut();
            if let Some(x) = m.get(s) {
                return *x;
            }
            if m.len() > 200_000 {
                m.clear();
            }
            let x: &'static str = Box::leak(s.to_string().into_boxed_str());
            m.insert(s.to_string(), x);
            x
        })
    })
}

// ---------------------------------------------------------------- scalars

macro_rules! gt_int {
    ($($t:ident $var:ident $sk:ident $acc:ident $big:ident),*) => {$(
        impl Gt for $t {
            fn make_ty() -> Ty {
                let mut t = Ty::of::<Self>(stringify!($t), K::Sc(Sk::$sk($t::BITS, false)));
                t.default = Some(|| V::$var(0));
                t
            }
            fn to_v(&self) -> V { V::$var(*self as $big) }
            fn from_v(v: &V) -> Self { v.$acc() as $t }
        }
        impl Gt for NonZero<$t> {
            fn make_ty() -> Ty { Ty::of::<Self>(concat!("NonZero<", stringify!($t), ">"), K::Sc(Sk::$sk($t::BITS, true))) }
            fn to_v(&self) -> V { V::$var(self.get() as $big) }
            fn from_v(v: &V) -> Self { NonZero::new(v.$acc() as $t).unwrap() }
        }
    )*};
}
gt_int!(u8 U UInt u u128, u16 U UInt u u128, u32 U UInt u u128, u64 U UInt u u128, u128 U UInt u u128, usize U UInt u u128,
        i8 I Int i i128, i16 I Int i i128, i32 I Int i i128, i64 I Int i i128, i128 I Int i i128, isize I Int i i128);

macro_rules! gt_sc {
    ($t:ty, $name:expr, $sk:expr, $dflt:expr, |$s:ident| $to:expr, |$v:ident| $from:expr) => {
        impl Gt for $t {
            fn make_ty() -> Ty {
                let mut t = Ty::of::<Self>($name, K::Sc($sk));
                t.default = $dflt;
                t
            }
            fn to_v(&self) -> V {
                let $s = self;
                $to
            }
            fn from_v($v: &V) -> Self {
                $from
            }
        }
    };
}
gt_sc!((), "()", Sk::Unit, Some(|| V::Unit), |_s| V::Unit, |_v| ());
gt_sc!(bool, "bool", Sk::Bool, Some(|| V::B(false)), |s| V::B(*s), |v| *v == V::B(true));
gt_sc!(f32, "f32", Sk::F32, Some(|| V::f32(0.0)), |s| V::f32(*s), |v| match v {
    V::F32(b) => f32::from_bits(*b),
    _ => panic!("harness: f32"),
});
gt_sc!(f64, "f64", Sk::F64, Some(|| V::f64(0.0)), |s| V::f64(*s), |v| match v {
    V::F64(b) => f64::from_bits(*b),
    _ => panic!("harness: f64"),
});
gt_sc!(char, "char", Sk::Char, Some(|| V::C('\0')), |s| V::C(*s), |v| match v {
    V::C(c) => *c,
    _ => panic!("harness: char"),
});
gt_sc!(String, "String", Sk::Str, Some(|| V::S(String::new())), |s| V::S(s.clone()), |v| v.s().to_string());
gt_sc!(&'static str, "&str", Sk::Str, Some(|| V::S(String::new())), |s| V::S(s.to_string()), |v| intern(v.s()));
gt_sc!(Cow<'static, str>, "Cow<str>", Sk::Str, Some(|| V::S(String::new())), |s| V::S(s.to_string()), |v| {
    let s = v.s();
    if s.len() % 2 == 0 { Cow::Owned(s.to_string()) } else { Cow::Borrowed(intern(s)) }
});
gt_sc!(Ipv4Addr, "Ipv4Addr", Sk::Ip(4), None, |s| V::S(s.to_string()), |v| v.s().parse().unwrap());
gt_sc!(Ipv6Addr, "Ipv6Addr", Sk::Ip(6), None, |s| V::S(s.to_string()), |v| v.s().parse().unwrap());
gt_sc!(IpAddr, "IpAddr", Sk::Ip(0), None, |s| V::S(s.to_string()), |v| v.s().parse().unwrap());
gt_sc!(SocketAddr, "SocketAddr", Sk::Ip(1), None, |s| V::S(s.to_string()), |v| v.s().parse().unwrap());
gt_sc!(PathBuf, "PathBuf", Sk::Path, Some(|| V::S(String::new())), |s| V::S(s.to_str().unwrap().to_string()), |v| PathBuf::from(v.s()));
gt_sc!(&'static Path, "&Path", Sk::Path, None, |s| V::S(s.to_str().unwrap().to_string()), |v| Path::new(intern(v.s())));
gt_sc!(camino::Utf8PathBuf, "Utf8PathBuf", Sk::Path, Some(|| V::S(String::new())), |s| V::S(s.as_str().to_string()), |v| camino::Utf8PathBuf::from(v.s()));
gt_sc!(&'static camino::Utf8Path, "&Utf8Path", Sk::Path, None, |s| V::S(s.as_str().to_string()), |v| camino::Utf8Path::new(intern(v.s())));
gt_sc!(crate::Trk, "Trk", Sk::Trk, Some(|| V::U(7)), |s| V::U(s.val() as u128), |v| crate::Trk::new(v.u() as u64));

impl<X: ?Sized + 'static> Gt for std::marker::PhantomData<X> {
    fn make_ty() -> Ty {
        let mut t = Ty::of::<Self>("PhantomData", K::Sc(Sk::Zst));
        t.default = Some(|| V::Unit);
        t
    }
    fn to_v(&self) -> V {
        V::Unit
    }
    fn from_v(_: &V) -> Self {
        std::marker::PhantomData
    }
}

// ---------------------------------------------------------------- composites

impl<X: Gt> Gt for Option<X> {
    fn make_ty() -> Ty {
        let mut t = Ty::of::<Self>(format!("Option<{}>", ty::<X>().name), K::Opt(ty::<X>));
        t.default = Some(V::none);
        t
    }
    fn to_v(&self) -> V {
        V::O(self.as_ref().map(|x| Box::new(x.to_v())))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::O(o) => o.as_ref().map(|x| X::from_v(x)),
            _ => panic!("harness: option from {v:?}"),
        }
    }
}
impl<X: Gt> Gt for Vec<X> {
    fn make_ty() -> Ty {
        let name = name_of_child::<X>("Vec<", ">");
        let mut t = Ty::of::<Self>(name, K::List(ty::<X>));
        t.default = Some(|| V::L(vec![]));
        t
    }
    fn to_v(&self) -> V {
        V::L(self.iter().map(|x| x.to_v()).collect())
    }
    fn from_v(v: &V) -> Self {
        v.fields().iter().map(|x| X::from_v(x)).collect()
    }
}
/// Child names are only for people; recursive types cannot be asked for theirs while being made.
fn name_of_child<X: Gt>(a: &str, b: &str) -> String {
    format!("{a}{}{b}", std::any::type_name::<X>().replace("alloc::string::", "").replace("corpus::types::", "").replace("alloc::vec::", "").replace("core::option::", ""))
}
impl<X: Gt> Gt for &'static [X] {
    fn make_ty() -> Ty {
        let mut t = Ty::of::<Self>(name_of_child::<X>("&[", "]"), K::Slice(ty::<X>));
        t.default = Some(|| V::L(vec![]));
        t
    }
    fn to_v(&self) -> V {
        V::L(self.iter().map(|x| x.to_v()).collect())
    }
    fn from_v(v: &V) -> Self {
        untracked(|| {
            let b: Vec<X> = v.fields().iter().map(|x| X::from_v(x)).collect();
            Box::leak(b.into_boxed_slice())
        })
    }
}
impl<X: Gt, const N: usize> Gt for [X; N] {
    fn make_ty() -> Ty {
        Ty::of::<Self>(name_of_child::<X>("[", &format!("; {N}]")), K::Array(ty::<X>, N))
    }
    fn to_v(&self) -> V {
        V::L(self.iter().map(|x| x.to_v()).collect())
    }
    fn from_v(v: &V) -> Self {
        std::array::from_fn(|i| X::from_v(&v.fields()[i]))
    }
}
impl<Ke: Gt + Eq + Hash, X: Gt, S: Facet + Default + BuildHasher + 'static> Gt for HashMap<Ke, X, S> {
    fn make_ty() -> Ty {
        let n = if std::mem::size_of::<S>() == 0 { "HashMapS" } else { "HashMap" };
        let mut t = Ty::of::<Self>(format!("{n}<{}>", name_of_child::<Ke>("", "") + ", " + &name_of_child::<X>("", "")), K::Map(Mk::Hash, ty::<Ke>, ty::<X>));
        t.default = Some(|| V::M(vec![]));
        t
    }
    fn to_v(&self) -> V {
        let mut m: Vec<(V, V)> = self.iter().map(|(k, x)| (k.to_v(), x.to_v())).collect();
        if !NATIVE_ORDER.get() {
            m.sort();
        }
        V::M(m)
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::M(m) => m.iter().map(|(k, x)| (Ke::from_v(k), X::from_v(x))).collect(),
            _ => panic!("harness: map"),
        }
    }
}
impl<Ke: Gt + Ord + Eq, X: Gt> Gt for BTreeMap<Ke, X> {
    fn make_ty() -> Ty {
        let mut t = Ty::of::<Self>(format!("BTreeMap<{}>", name_of_child::<Ke>("", "") + ", " + &name_of_child::<X>("", "")), K::Map(Mk::BTree, ty::<Ke>, ty::<X>));
        t.default = Some(|| V::M(vec![]));
        t
    }
    fn to_v(&self) -> V {
        let mut m: Vec<(V, V)> = self.iter().map(|(k, x)| (k.to_v(), x.to_v())).collect();
        m.sort();
        V::M(m)
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::M(m) => m.iter().map(|(k, x)| (Ke::from_v(k), X::from_v(x))).collect(),
            _ => panic!("harness: map"),
        }
    }
}
impl<X: Gt> Gt for Arc<X> {
    fn make_ty() -> Ty {
        Ty::of::<Self>(name_of_child::<X>("Arc<", ">"), K::Arc(ty::<X>))
    }
    fn to_v(&self) -> V {
        V::P(Box::new((**self).to_v()))
    }
    fn from_v(v: &V) -> Self {
        match v {
            V::P(x) => Arc::new(X::from_v(x)),
            _ => panic!("harness: arc"),
        }
    }
}

macro_rules! gt_tuple {
    ($($X:ident $i:tt),+) => {
        impl<$($X: Gt),+> Gt for ($($X,)+) {
            fn make_ty() -> Ty {
                let names: Vec<String> = vec![$(name_of_child::<$X>("", "")),+];
                Ty::of::<Self>(format!("({})", names.join(", ")),
                    K::St(Stk::Tuple, vec![$(Fd::new(stringify!($i), ty::<$X>, std::mem::offset_of!(Self, $i))),+]))
            }
            fn to_v(&self) -> V { V::St(vec![$(self.$i.to_v()),+]) }
            fn from_v(v: &V) -> Self { let f = v.fields(); ($($X::from_v(&f[$i]),)+) }
        }
    };
}
gt_tuple!(A 0);
gt_tuple!(A 0, B 1);
gt_tuple!(A 0, B 1, C 2);
gt_tuple!(A 0, B 1, C 2, D 3);
gt_tuple!(A 0, B 1, C 2, D 3, E 4);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, L 10);
gt_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, L 10, M 11);

/// A hasher other than the default one.
#[derive(Clone, Default)]
pub struct FixedState;
pub struct FixedHasher(u64);
impl BuildHasher for FixedState {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(7)
    }
}
impl std::hash::Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5);
        }
    }
}
unsafe impl Facet for FixedState {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(facet_core::ConstTypeId::of::<Self>())
            .layout(std::alloc::Layout::new::<Self>())
            .def(facet_core::Def::Scalar(facet_core::ScalarDef::builder().affinity(facet_core::ScalarAffinity::opaque().build()).build()))
            .vtable(facet_core::value_vtable!(FixedState, |f, _opts| write!(f, "FixedState")))
            .build()
    };
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Opt {
    /// no NaN or infinities
    pub finite: bool,
    pub max_elems: usize,
    pub depth: usize,
    pub str_max: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { finite: false, max_elems: 4, depth: 4, str_max: 10 }
    }
}

pub fn gen_ip(s: &mut Src, which: u8) -> String {
    let v4 = |s: &mut Src| Ipv4Addr::from(s.uint(32) as u32);
    let v6 = |s: &mut Src| Ipv6Addr::from(s.uint(128));
    match which {
        4 => v4(s).to_string(),
        6 => v6(s).to_string(),
        0 => {
            if s.bool() { IpAddr::V6(v6(s)).to_string() } else { IpAddr::V4(v4(s)).to_string() }
        }
        _ => {
            let port = s.uint(16) as u16;
            if s.bool() { SocketAddr::V6(SocketAddrV6::new(v6(s), port, 0, 0)).to_string() } else { SocketAddr::V4(SocketAddrV4::new(v4(s), port)).to_string() }
        }
    }
}

const LONG: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257];
const LONGER: &[usize] = &[511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097];
const LONGEST: &[usize] = &[8193, 32768, 65535, 65536, 65536, 65537, 65537];
/// Now and then a collection is long, its items small.
fn long_len(s: &mut Src, o: Opt) -> Option<(usize, Opt)> {
    if o.depth == 0 || o.max_elems < 2 || !s.chance(1, 150) {
        return None;
    }
    Some((*s.pick(LONG), Opt { depth: o.depth.min(2) - 1, max_elems: 1, str_max: 4, ..o }))
}
/// ... and now and then it is longer than that.
fn longer(s: &mut Src, n: usize, simple: bool) -> usize {
    match s.below(50) {
        0..=4 if simple => *s.pick(LONGEST),
        0..=9 => *s.pick(LONGER),
        _ => n,
    }
}
fn long_string(s: &mut Src) -> String {
    let n = *s.pick(LONG);
    let n = longer(s, n, true);
    let pool: Vec<char> = (0..3).map(|_| s.char()).collect();
    repeated(s, n, &pool)
}
/// A long run of a few things: the draws are few.
fn repeated<X: Clone, C: FromIterator<X>>(s: &mut Src, n: usize, pool: &[X]) -> C {
    let picks: Vec<usize> = (0..n.min(300)).map(|_| s.below(pool.len())).collect();
    (0..n).map(|i| pool[(picks[i % picks.len().max(1)] + i / 300) % pool.len()].clone()).collect()
}

/// A random value of the type.
pub fn gen_v(t: T, s: &mut Src, o: Opt) -> V {
    let deeper = Opt { depth: o.depth.saturating_sub(1), ..o };
    match &t.k {
        K::Sc(sk) => match *sk {
            Sk::Unit | Sk::Zst => V::Unit,
            Sk::Bool => V::B(s.bool()),
            Sk::UInt(b, nz) => {
                let u = s.uint(b);
                V::U(if nz && u == 0 { 1 } else { u })
            }
            Sk::Int(b, nz) => {
                let i = s.int(b);
                V::I(if nz && i == 0 { 1 } else { i })
            }
            Sk::F32 => V::f32(s.f32(o.finite)),
            Sk::F64 => V::f64(s.f64(o.finite)),
            Sk::Char => V::C(s.char()),
            Sk::Str => V::S(if o.max_elems > 1 && s.chance(1, 150) { long_string(s) } else { s.string(o.str_max) }),
            Sk::Ip(w) => V::S(gen_ip(s, w)),
            Sk::Path => V::S(s.string(o.str_max).replace('\0', "/")),
            Sk::Trk => V::U(s.uint(64)),
        },
        K::St(_, f) => V::St(f.iter().map(|f| gen_v(f.t(), s, deeper)).collect()),
        K::En(_, vs) => {
            let i = if o.depth == 0 { 0 } else { s.below(vs.len()) };
            V::En(i, vs[i].fields.iter().map(|f| gen_v(f.t(), s, deeper)).collect())
        }
        K::List(e) | K::Slice(e) => {
            let mut v = vec![];
            if let Some((n, small)) = long_len(s, o) {
                // the same few items over and over, and one of its own anywhere
                let pool: Vec<V> = (0..3).map(|_| gen_v(e(), s, small)).collect();
                let n = longer(s, n, matches!(e().k, K::Sc(_)));
                v = repeated(s, n, &pool);
                let own = gen_v(e(), s, small);
                let i = s.below(n);
                v[n - 1 - i] = own;
            } else if o.depth > 0 {
                while s.more(v.len(), o.max_elems, 2, 3) {
                    v.push(gen_v(e(), s, deeper));
                }
            }
            V::L(v)
        }
        K::Array(e, n) => V::L((0..*n).map(|_| gen_v(e(), s, deeper)).collect()),
        K::Map(_, k, e) => {
            let mut m: Vec<(V, V)> = vec![];
            let mut tries = 0;
            let (most, deeper, p) = match long_len(s, o) {
                Some((n, small)) => {
                    let simple = matches!(&k().k, K::Sc(Sk::Str) | K::Sc(Sk::UInt(16.., false)));
                    if simple && s.chance(1, 6) {
                        // distinct keys without drawing each
                        let n = if s.bool() { *s.pick(LONGER) } else { s.range(257, 1300) };
                        let from = s.below(40000);
                        let pool: Vec<V> = (0..3).map(|_| gen_v(e(), s, small)).collect();
                        let mut m: Vec<(V, V)> = (from..from + n).enumerate().map(|(i, x)| (if matches!(&k().k, K::Sc(Sk::Str)) { V::S(format!("k{x}")) } else { V::U(x as u128) }, pool[i * i % 7 % 3].clone())).collect();
                        m.sort();
                        return V::M(m);
                    }
                    (2 * n, small, 5000)
                }
                None => (o.max_elems, deeper, 2),
            };
            if o.depth > 0 {
                while s.more(tries, most, p, p + 1) {
                    tries += 1;
                    let kv = gen_v(k(), s, deeper);
                    if !m.iter().any(|(x, _)| *x == kv) {
                        let vv = gen_v(e(), s, deeper);
                        m.push((kv, vv));
                    }
                }
            }
            m.sort();
            V::M(m)
        }
        K::Opt(e) => {
            if o.depth > 0 && s.chance(2, 3) { V::some(gen_v(e(), s, deeper)) } else { V::none() }
        }
        K::Arc(e) => V::P(Box::new(gen_v(e(), s, deeper))),
    }
}

/// The type's name without module paths and without defaulted parameters, from the compiler.
pub fn plain_name(full: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut cs = full.chars().peekable();
    while let Some(c) = cs.next() {
        if c == ':' {
            cs.next();
            word.clear();
        } else if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    out + &word
}

// ------------------------------------------------------------------ invariants

/// A value of small parts.
pub fn small_v(t: T, s: &mut Src, o: Opt) -> V {
    match &t.k {
        K::Sc(Sk::UInt(_, nz)) => V::U(s.below(6) as u128 + *nz as u128),
        K::Sc(Sk::Int(_, false)) => V::I(s.below(7) as i128 - 3),
        K::Sc(Sk::Str) => V::S("abcdef"[..s.below(6)].to_string()),
        K::St(_, f) => V::St(f.iter().map(|f| small_v(f.t(), s, o)).collect()),
        K::En(_, vs) => {
            let i = s.below(vs.len());
            V::En(i, vs[i].fields.iter().map(|f| small_v(f.t(), s, o)).collect())
        }
        K::List(e) => V::L((0..s.below(4)).map(|_| small_v(e(), s, o)).collect()),
        _ => gen_v(t, s, o),
    }
}
/// A value close to the line between its invariant holding and not, and on which side it is.
pub fn near_invariant(t: T, s: &mut Src, o: Opt) -> (V, bool) {
    let want = s.bool();
    let inv = t.invariant.unwrap();
    let mut v = gen_v(t, s, o);
    for _ in 0..20 {
        if inv(&v) == want {
            break;
        }
        v = small_v(t, s, o);
    }
    let holds = inv(&v);
    (v, holds)
}
/// Every invariant declared anywhere within holds.
pub fn all_hold(t: T, v: &V) -> bool {
    t.invariant.is_none_or(|i| i(v))
        && match (&t.k, v) {
            (K::St(_, fs), V::St(x)) => fs.iter().zip(x).all(|(f, x)| all_hold(f.t(), x)),
            (K::En(_, vs), V::En(i, x)) => vs[*i].fields.iter().zip(x).all(|(f, x)| all_hold(f.t(), x)),
            (K::List(e), V::L(x)) => x.iter().all(|x| all_hold(e(), x)),
            (K::Map(_, k, e), V::M(x)) => x.iter().all(|(q, x)| all_hold(k(), q) && all_hold(e(), x)),
            (K::Opt(e), V::O(Some(x))) => all_hold(e(), x),
            _ => true,
        }
}
