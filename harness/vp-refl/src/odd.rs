//! Types outside the corpus model: raw and weak pointers, opaque handles, type ids, hasher states.
//! Shared by S02 (operations), S03 (reads) and S04 (identity).
use crate::common::*;
use facet_core::{ConstTypeId, Facet, KnownSmartPointer, Opaque, SmartPointerFlags};
use facet_reflect::ScalarType;
use std::cmp::Ordering;
use std::collections::hash_map::RandomState;
use std::ptr::NonNull;
use std::sync::{Arc, Weak};

/// Not a described type.
pub struct Hidden(#[allow(dead_code)] pub u8);

/// What is known of the value a case made.
pub struct Made {
    /// address of the target, for pointers
    at: usize,
    keep: Box<dyn std::any::Any>,
}
/// Elements that pointers point to.
pub trait El: Facet + Clone + PartialEq + std::fmt::Debug + 'static {
    fn el(s: &mut Src) -> Self;
}
macro_rules! el {
    ($($X:ty => |$s:ident| $e:expr;)*) => { $(impl El for $X { fn el($s: &mut Src) -> Self { $e } })* };
}
el! {
    u8 => |s| s.below(256) as u8;
    i64 => |s| s.int(64) as i64;
    bool => |s| s.bool();
    String => |s| s.string(6);
    () => |_s| ();
    [u16; 3] => |s| [s.below(9) as u16, 7, 65535];
    Vec<u8> => |s| (0..s.below(4)).map(|_| s.below(256) as u8).collect();
    Option<char> => |s| s.bool().then_some('ü');
    Arc<String> => |s| Arc::new(s.string(3));
    (u8, String) => |s| (s.below(256) as u8, s.string(3));
}

pub trait Odd: Facet + Sized + 'static {
    fn make(s: &mut Src) -> (Self, Made);
    /// two values, equal (and then alike to every operation) or not
    fn check_kept(_m: &Made, _expected: isize) -> bool {
        true
    }
}
impl<E: El> Odd for NonNull<E> {
    fn make(s: &mut Src) -> (Self, Made) {
        let b = Box::new(E::el(s));
        let p = NonNull::from(&*b);
        (p, Made { at: p.as_ptr() as usize, keep: b })
    }
}
impl<E: El> Odd for Weak<E> {
    fn make(s: &mut Src) -> (Self, Made) {
        if s.chance(1, 4) {
            return (Weak::new(), Made { at: 0, keep: Box::new(()) });
        }
        let a = Arc::new(E::el(s));
        let w = Arc::downgrade(&a);
        let at = Arc::as_ptr(&a) as usize;
        if s.chance(1, 4) {
            return (w, Made { at: 0, keep: Box::new(()) });
        }
        (w, Made { at, keep: Box::new(a) })
    }
    fn check_kept(m: &Made, expected: isize) -> bool {
        m.keep.downcast_ref::<Arc<E>>().is_none_or(|a| Arc::weak_count(a) as isize == expected && Arc::strong_count(a) == 1)
    }
}
impl Odd for Opaque<Arc<Hidden>> {
    fn make(s: &mut Src) -> (Self, Made) {
        let a = Arc::new(Hidden(s.below(256) as u8));
        let at = Arc::as_ptr(&a) as usize;
        // the wrapper cannot be written down, but is laid out like what it wraps
        (unsafe { std::mem::transmute::<Arc<Hidden>, Self>(a.clone()) }, Made { at, keep: Box::new(a) })
    }
    fn check_kept(m: &Made, expected: isize) -> bool {
        m.keep.downcast_ref::<Arc<Hidden>>().is_none_or(|a| Arc::strong_count(a) as isize == 1 + expected)
    }
}
impl Odd for ConstTypeId {
    fn make(s: &mut Src) -> (Self, Made) {
        let c = match s.below(5) {
            0 => ConstTypeId::of::<u8>(),
            1 => ConstTypeId::of::<str>(),
            2 => ConstTypeId::of::<[u8]>(),
            3 => ConstTypeId::of::<ConstTypeId>(),
            _ => ConstTypeId::of::<Option<u8>>(),
        };
        (c, Made { at: 0, keep: Box::new(c) })
    }
}
impl Odd for RandomState {
    fn make(_: &mut Src) -> (Self, Made) {
        (RandomState::new(), Made { at: 0, keep: Box::new(()) })
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Is {
    Raw,
    Weak,
    Opaque,
    Id,
    State,
}

pub struct Entry {
    name: &'static str,
    cut: &'static str,
    is: Is,
    sh: fn() -> &'static Shape,
    id: fn() -> std::any::TypeId,
    size: (usize, usize),
    elem: fn() -> Option<&'static Shape>,
    strong: fn() -> Option<&'static Shape>,
    is_type: fn(&'static Shape) -> bool,
    read: fn(Peek<'static>) -> bool,
    mat: fn(facet_reflect::HeapValue<'static>) -> bool,
    /// make a value, hand it to `f`, drop it; says whether what it refers to is as it should be
    with: fn(&mut Src, &mut dyn FnMut(Peek<'static>, &Made) -> R) -> R,
    put: for<'a> fn(Wip<'static>, &mut Src) -> Result<Wip<'static>, String>,
    clone: fn(&mut Src) -> R,
    texts: fn(&mut Src) -> R,
}

fn with<X: Odd>(s: &mut Src, f: &mut dyn FnMut(Peek<'static>, &Made) -> R) -> R {
    let (x, m) = X::make(s);
    let x = Box::new(x);
    let p: &'static X = unsafe { &*std::ptr::from_ref(&*x) };
    f(Peek::new(p), &m)?;
    ensure!(X::check_kept(&m, 1), "kept", "{}: what it refers to was changed by reading", X::SHAPE);
    drop(x);
    ensure!(X::check_kept(&m, 0), "kept", "{}: what it refers to is still held", X::SHAPE);
    Ok(())
}
fn put<X: Odd>(w: Wip<'static>, s: &mut Src) -> Result<Wip<'static>, String> {
    let (x, _m) = X::make(s);
    let r = w.put(x).map_err(|e| e.to_string());
    // the target of a raw pointer may go: nobody looks through it
    r
}
/// Cloning and dropping through the description.
fn clone<X: Odd>(s: &mut Src) -> R {
    let vt = X::SHAPE.vtable;
    let (x, m) = X::make(s);
    let l = std::alloc::Layout::new::<X>();
    let buf = untracked(|| unsafe { std::alloc::alloc(l) });
    let mut r = Ok(());
    if let Some(c) = vt.clone_into {
        let got = unsafe { c(PtrConst::new(&x), PtrUninit::new(buf)) };
        if got.as_byte_ptr() as usize != buf as usize || !X::check_kept(&m, 2) {
            r = fail("odd-clone", format!("{}: cloning gives something else", X::SHAPE));
        } else if let Some(d) = vt.drop_in_place {
            unsafe { d(PtrMut::new(buf)) };
            if !X::check_kept(&m, 1) {
                r = fail("odd-drop", format!("{}: dropping a clone", X::SHAPE));
            }
        } else if std::mem::needs_drop::<X>() {
            r = fail("odd-no-drop", format!("{} says it needs no drop", X::SHAPE));
        }
    }
    // dropped through the description
    if let (Ok(()), Some(d)) = (&r, vt.drop_in_place) {
        unsafe {
            std::ptr::write(buf as *mut X, x);
            d(PtrMut::new(buf));
        }
        if !X::check_kept(&m, 0) {
            r = fail("odd-drop", format!("{}: dropping it keeps its target held", X::SHAPE));
        }
    }
    untracked(|| unsafe { std::alloc::dealloc(buf, l) });
    r
}
struct Dbg(facet_core::DebugFn, PtrConst<'static>);
impl std::fmt::Debug for Dbg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { (self.0)(self.1, f) }
    }
}
fn konst<X>(x: &X) -> PtrConst<'static> {
    PtrConst::new(std::ptr::from_ref(x))
}
/// Debug, equality, order and hash of a type that has them all.
fn all_ops<X: Odd + std::fmt::Debug + Ord + std::hash::Hash>(s: &mut Src) -> R {
    let (a, _ka) = X::make(s);
    let (mut b, _kb) = X::make(s);
    if s.bool() {
        b = unsafe { std::ptr::read(&a) };
    }
    let vt = X::SHAPE.vtable;
    let (pa, pb) = (konst(&a), konst(&b));
    let n = X::SHAPE.to_string();
    if let Some(d) = vt.debug {
        ensure!(format!("{:?}", Dbg(d, pa)) == format!("{a:?}") && format!("{:#?}", Dbg(d, pa)) == format!("{a:#?}"), "odd-debug", "{n}: {:?}, natively {a:?}", Dbg(d, pa));
    }
    if let Some(f) = vt.eq {
        ensure!(unsafe { f(pa, pb) } == (a == b), "odd-eq", "{n}: {a:?} and {b:?} equal: {}", a != b);
    }
    if let Some(f) = vt.partial_ord {
        let got = unsafe { f(pa, pb) };
        ensure!(got == a.partial_cmp(&b), "odd-partial-ord", "{n}: {a:?} against {b:?}: {got:?}");
    }
    if let Some(f) = vt.ord {
        let got: Ordering = unsafe { f(pa, pb) };
        ensure!(got == a.cmp(&b), "odd-ord", "{n}: {a:?} against {b:?}: {got:?}");
    }
    ensure!(vt.eq.is_some() && vt.ord.is_some() && vt.partial_ord.is_some() && vt.hash.is_some() && vt.debug.is_some() && vt.is_eq(), "odd-offered", "{n}: an operation is missing");
    let (qa, qb): (&'static X, &'static X) = unsafe { (&*std::ptr::from_ref(&a), &*std::ptr::from_ref(&b)) };
    let h = |p: Peek<'static>| {
        let mut h = RecHasher::default();
        p.hash(&mut h);
        h.0
    };
    let mut want = RecHasher::default();
    a.hash(&mut want);
    ensure!(h(Peek::new(qa)) == want.0, "odd-hash", "{n}: {a:?} hashes differently");
    ensure!(a != b || h(Peek::new(qa)) == h(Peek::new(qb)), "odd-hash-eq", "{n}: equal values hash differently");
    Ok(())
}
/// Debug and default of a type that has no comparisons.
fn dbg_default<X: Odd + std::fmt::Debug + Default>(s: &mut Src) -> R {
    let (a, _k) = X::make(s);
    let vt = X::SHAPE.vtable;
    let n = X::SHAPE.to_string();
    if let Some(d) = vt.debug {
        ensure!(format!("{:?}", Dbg(d, konst(&a))) == format!("{a:?}"), "odd-debug", "{n}: {:?}, natively {a:?}", Dbg(d, konst(&a)));
    }
    ensure!(vt.eq.is_none() && vt.ord.is_none() && vt.partial_ord.is_none() && vt.hash.is_none() && vt.display.is_none() && !vt.is_eq() && !vt.is_copy() && vt.parse.is_none(), "odd-offered", "{n}: offers what the type does not have");
    if let Some(d) = vt.default_in_place {
        let mut b = std::mem::MaybeUninit::<X>::uninit();
        unsafe {
            d(PtrUninit::new(b.as_mut_ptr()));
            let b = b.assume_init();
            ensure!(format!("{b:?}") == format!("{:?}", X::default()), "odd-default", "{n}: default is {b:?}");
        }
    }
    Ok(())
}
fn nothing<X: Odd>(s: &mut Src) -> R {
    let (_a, _k) = X::make(s);
    Ok(())
}

macro_rules! entry {
    ($X:ty, $name:expr, $cut:expr, $is:expr, $elem:expr, $strong:expr, $texts:expr) => {
        Entry {
            name: $name,
            cut: $cut,
            is: $is,
            sh: || <$X as Facet>::SHAPE,
            id: || std::any::TypeId::of::<$X>(),
            size: (size_of::<$X>(), align_of::<$X>()),
            elem: || $elem,
            strong: || $strong,
            is_type: |s| s.is_type::<$X>(),
            read: |p| p.get::<$X>().is_ok(),
            mat: |h| h.materialize::<$X>().is_ok(),
            with: with::<$X>,
            put: put::<$X>,
            clone: clone::<$X>,
            texts: $texts,
        }
    };
}
macro_rules! pointers {
    ($($E:ty, $n:literal;)*) => {
        &[
            $(
                entry!(NonNull<$E>, concat!("NonNull<", $n, ">"), "NonNull<⋯>", Is::Raw, Some(<$E as Facet>::SHAPE), None, all_ops::<NonNull<$E>>),
                entry!(Weak<$E>, concat!("Weak<", $n, ">"), "Weak<⋯>", Is::Weak, Some(<$E as Facet>::SHAPE), Some(<Arc<$E> as Facet>::SHAPE), dbg_default::<Weak<$E>>),
            )*
            entry!(Opaque<Arc<Hidden>>, "", "", Is::Opaque, None, None, nothing::<Opaque<Arc<Hidden>>>),
            entry!(ConstTypeId, "ConstTypeId", "ConstTypeId", Is::Id, None, None, all_ops::<ConstTypeId>),
            entry!(RandomState, "RandomState", "RandomState", Is::State, None, None, dbg_default::<RandomState>),
        ]
    };
}
static ODD: &[Entry] = pointers! {
    u8, "u8";
    i64, "i64";
    bool, "bool";
    String, "String";
    (), "()";
    [u16; 3], "[u16; 3]";
    Vec<u8>, "Vec<u8>";
    Option<char>, "Option<char>";
    Arc<String>, "Arc<String>";
    (u8, String), "(u8, String)";
};

struct Cut(&'static Shape, isize);
impl std::fmt::Display for Cut {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut o = facet_core::TypeNameOpts::none();
        o.recurse_ttl = self.1;
        self.0.write_type_name(f, o)
    }
}

/// Runs `f` with the allocator watching.
fn watched(what: &str, f: impl FnOnce() -> R) -> R {
    let scope = Scope::begin();
    let res = guarded(f);
    let rep = scope.end();
    match res {
        Ok(r) => r?,
        Err(p) => return fail(panic_sig(&p), format!("{what}: panicked: {} at {}", p.0, p.1)),
    }
    mem_check(&rep, what)
}

/// S04
pub fn identity(s: &mut Src, cx: &mut Ctx) -> R {
    let a = &ODD[s.below(ODD.len())];
    let b = &ODD[s.below(ODD.len())];
    let root = pick_root(s);
    let rt = (root.ty)();
    cx.nontrivial();
    cx.key(&format!("{}|{}", a.name, b.name));
    cx.sample(|| format!("{} vs {} and {}", a.name, b.name, root.name));
    let (sa, sb, sr) = ((a.sh)(), (b.sh)(), rt.sh());
    let same = (a.id)() == (b.id)();
    ensure!((sa == sb) == same && (sa.id == sb.id) == same && sa.is_shape(sb) == same && (b.is_type)(sa) == same, "odd-eq", "{} and {}: equal {}, is_type {}", a.name, b.name, sa == sb, (b.is_type)(sa));
    ensure!(sa != sr && sr != sa && sa.id != sr.id && !(rt.is_type)(sa) && !(a.is_type)(sr), "odd-eq-root", "{} is taken for {}", a.name, root.name);
    let id: std::any::TypeId = (a.id)();
    ensure!((sa.id == id) && (sb.id == id) == same, "odd-type-id", "{}: its id is not that of the type", a.name);
    ensure!((sa.layout.size(), sa.layout.align()) == a.size, "odd-layout", "{}: layout {:?}, really {:?}", a.name, sa.layout, a.size);
    if a.is != Is::Opaque {
        let n = sa.to_string();
        ensure!(n == a.name, "odd-name", "{} is named {n}", a.name);
        let n = Cut(sa, 0).to_string().replace('…', "⋯");
        ensure!(n == a.cut, "odd-name-cut", "{} is cut to {n}", a.name);
    }
    // typed reads, puts and materialisation
    watched("odd", || {
        (a.with)(s, &mut |p, _| {
            ensure!((b.read)(p) == same, "odd-read", "a {} read as {}: {}", a.name, b.name, (b.read)(p));
            ensure!((rt.read)(p).is_err(), "odd-read-root", "a {} read as {}", a.name, root.name);
            ensure!(p.shape() == sa, "odd-shape", "{}: shape {}", a.name, p.shape());
            Ok(())
        })?;
        match (b.put)(Wip::alloc_shape(sa), s) {
            Ok(w) => {
                ensure!(same, "odd-put", "a slot of type {} accepts a {}", a.name, b.name);
                let h = match w.build() {
                    Ok(h) => h,
                    Err(e) => return fail("odd-build", format!("{}: {e}", a.name)),
                };
                let c = &ODD[s.below(ODD.len())];
                let ok = (c.mat)(h);
                ensure!(ok == ((c.id)() == (a.id)()), "odd-materialize", "a {} materialised as {}: {ok}", a.name, c.name);
            }
            Err(e) => ensure!(!same, "odd-put", "a slot of type {} refuses a {}: {e}", a.name, b.name),
        }
        Ok(())
    })
}

/// S02
pub fn operations(s: &mut Src, cx: &mut Ctx) -> R {
    let a = &ODD[s.below(ODD.len())];
    cx.nontrivial();
    cx.key(a.name);
    cx.sample(|| a.name.to_string());
    watched("odd", || {
        (a.clone)(s)?;
        (a.texts)(s)
    })
}

/// S03
pub fn reads(s: &mut Src, cx: &mut Ctx) -> R {
    let a = &ODD[s.below(ODD.len())];
    cx.nontrivial();
    cx.key(a.name);
    cx.sample(|| a.name.to_string());
    watched("odd", || {
        (a.with)(s, &mut |p, m| {
            let pointer = matches!(a.is, Is::Raw | Is::Weak | Is::Opaque);
            ensure!(p.into_smart_pointer().is_ok() == pointer, "odd-view", "{} as a smart pointer: {}", a.name, !pointer);
            ensure!(p.into_struct().is_err() && p.into_enum().is_err() && p.into_list().is_err() && p.into_map().is_err() && p.into_option().is_err(), "odd-view", "{}: seen as what it is not", a.name);
            ensure!(p.scalar_type() == (a.is == Is::Id).then_some(ScalarType::ConstTypeId), "odd-scalar-type", "{}: {:?}", a.name, p.scalar_type());
            if !pointer {
                return Ok(());
            }
            let d = *p.into_smart_pointer().unwrap().def();
            ensure!(d.pointee == (a.elem)(), "odd-pointee", "{}: points to {:?}", a.name, d.pointee.map(|x| x.to_string()));
            let (known, flags) = match a.is {
                Is::Raw => (KnownSmartPointer::NonNull, SmartPointerFlags::EMPTY),
                Is::Weak => (KnownSmartPointer::ArcWeak, SmartPointerFlags::ATOMIC | SmartPointerFlags::WEAK),
                _ => (KnownSmartPointer::Arc, SmartPointerFlags::ATOMIC),
            };
            ensure!(d.known == Some(known) && d.flags == flags, "odd-known", "{}: known as {:?} {:?}", a.name, d.known, d.flags);
            ensure!(d.strong.map(|f| f()) == (a.strong)(), "odd-strong", "{}: strong counterpart {:?}", a.name, d.strong.map(|f| f().to_string()));
            match (d.vtable.borrow_fn, a.is) {
                (Some(b), Is::Raw | Is::Opaque) => {
                    let got = unsafe { b(p.data()) }.as_byte_ptr() as usize;
                    ensure!(got == m.at, "odd-borrow", "{}: borrows {got:#x}, its target is at {:#x}", a.name, m.at);
                }
                (None, Is::Weak) => {}
                _ => return fail("odd-borrow", format!("{}: whether it can be borrowed", a.name)),
            }
            if let (Some(up), Some(strong)) = (d.vtable.upgrade_into_fn, (a.strong)()) {
                let mut slot = [0usize; 2];
                let got = unsafe { up(PtrMut::new(p.data().as_byte_ptr() as *mut u8), PtrUninit::new(&mut slot)) };
                ensure!(got.is_some() == (m.at != 0), "odd-upgrade", "{}: upgraded: {}, its target is alive: {}", a.name, got.is_some(), m.at != 0);
                if let (Some(g), Def::SmartPointer(sd)) = (got, strong.def) {
                    let at = unsafe { (sd.vtable.borrow_fn.unwrap())(g.as_const()) }.as_byte_ptr() as usize;
                    unsafe { (strong.vtable.drop_in_place.unwrap())(g) };
                    ensure!(at == m.at, "odd-upgrade", "{}: upgraded to another target", a.name);
                }
            } else {
                ensure!(a.is != Is::Weak, "odd-upgrade", "{}: cannot be upgraded", a.name);
            }
            Ok(())
        })
    })
}
