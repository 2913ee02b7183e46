pub use corpus::natives::{RecHasher, Root, Style};
pub use corpus::*;
pub use facet_core::{Characteristic, Def, PtrConst, PtrMut, PtrUninit, Shape};
pub use facet_reflect::{Peek, Wip};
pub use vpcore::alloc::{Report, Scope, untracked};
pub use vpcore::{Ctx, Fail, Prop, R, Src, Target, ensure, fail, guarded, panic_sig};

/// Scratch memory for one value, filled with a pattern.
pub struct Mem {
    pub p: *mut u8,
    layout: std::alloc::Layout,
}
impl Mem {
    pub fn new(t: T) -> Mem {
        untracked(|| {
            // over-allocate: writes outside the value are seen
            let l = std::alloc::Layout::from_size_align(t.size + 64, t.align.max(16)).unwrap();
            let p = unsafe { std::alloc::alloc(l) };
            unsafe { std::ptr::write_bytes(p, 0x5A, l.size()) };
            Mem { p, layout: l }
        })
    }
    pub fn of(t: T, v: &V) -> Mem {
        let m = Mem::new(t);
        unsafe { (t.write)(m.p, v) };
        m
    }
    pub fn uninit(&self) -> PtrUninit<'static> {
        PtrUninit::new(self.p)
    }
    pub fn konst(&self) -> PtrConst<'static> {
        PtrConst::new(self.p)
    }
    pub fn mutp(&self) -> PtrMut<'static> {
        PtrMut::new(self.p)
    }
    pub fn tail_intact(&self, t: T) -> bool {
        (t.size..self.layout.size()).all(|i| unsafe { *self.p.add(i) } == 0x5A)
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        untracked(|| unsafe { std::alloc::dealloc(self.p, self.layout) })
    }
}

pub fn pick_root(s: &mut Src) -> &'static Root {
    &ROOTS[s.below(ROOTS.len())]
}

/// A value close to `v`: same value, one leaf changed, or a fresh one.
pub fn gen_near(t: T, v: &V, s: &mut Src, o: Opt) -> V {
    match s.below(3) {
        0 => v.clone(),
        1 => mutate(t, v, s, o),
        _ => gen_v(t, s, o),
    }
}

pub fn mutate(t: T, v: &V, s: &mut Src, o: Opt) -> V {
    let d = Opt { depth: o.depth.saturating_sub(1), ..o };
    match (&t.k, v) {
        (K::St(_, f), V::St(x)) if !x.is_empty() => {
            let i = s.below(x.len());
            let mut x = x.clone();
            x[i] = mutate(f[i].t(), &x[i], s, d);
            V::St(x)
        }
        (K::En(_, vs), V::En(k, x)) if !x.is_empty() && s.chance(2, 3) => {
            let i = s.below(x.len());
            let mut x = x.clone();
            x[i] = mutate(vs[*k].fields[i].t(), &x[i], s, d);
            V::En(*k, x)
        }
        (K::List(e) | K::Slice(e), V::L(x)) if !x.is_empty() => {
            let mut x = x.clone();
            if s.bool() {
                x.pop();
            } else {
                let i = s.below(x.len());
                x[i] = mutate(e(), &x[i], s, d);
            }
            V::L(x)
        }
        (K::Array(e, n), V::L(x)) if *n > 0 => {
            let i = s.below(*n);
            let mut x = x.clone();
            x[i] = mutate(e(), &x[i], s, d);
            V::L(x)
        }
        (K::Map(_, _, e), V::M(x)) if !x.is_empty() => {
            let mut x = x.clone();
            let i = s.below(x.len());
            if s.bool() {
                x.remove(i);
            } else {
                x[i].1 = mutate(e(), &x[i].1, s, d);
            }
            V::M(x)
        }
        (K::Opt(e), V::O(Some(x))) if s.chance(2, 3) => V::some(mutate(e(), x, s, d)),
        (K::Arc(e), V::P(x)) => V::P(Box::new(mutate(e(), x, s, d))),
        _ => gen_v(t, s, o),
    }
}

/// A composite's own operations are built from its parts'; only scalars and derived types hand
/// over to the compiler's implementation directly.
pub fn is_native(t: T) -> bool {
    matches!(&t.k, K::Sc(_) | K::St(Stk::Named | Stk::TupleStruct | Stk::Unit, _) | K::En(..))
}

/// Hash maps iterate in an order of their own.
pub fn order_free(t: T, v: &V) -> bool {
    !t.any(&mut |x| matches!(x.k, K::Map(Mk::Hash, ..))) || !v.any(&mut |x| matches!(x, V::M(m) if m.len() > 1))
}

pub fn mem_check(r: &Report, what: &str) -> R {
    if !r.clean() {
        return fail(format!("memory:{}:{what}", r.kind()), format!("{what}: allocator saw {r:?}"));
    }
    trk_check(what)
}
pub fn trk_check(what: &str) -> R {
    if let Some(b) = corpus::trk::bad() {
        return fail(format!("tracked:{what}"), format!("{what}: {b}"));
    }
    if corpus::trk::live() != 0 {
        return fail(format!("tracked-live:{what}"), format!("{what}: {} tracked values alive at the end", corpus::trk::live()));
    }
    Ok(())
}
