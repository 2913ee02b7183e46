//! S04: type identity.
use crate::common::*;
use crate::s02::kind;

fn expected_names(t: T) -> Vec<String> {
    let full = plain_name(t.rust_name);
    let mut v = vec![full.clone(), t.rust_name.to_string()];
    if t.any(&mut |x| matches!(x.k, K::Sc(Sk::Zst) | K::St(Stk::Named | Stk::TupleStruct, _) if x.rust_name.ends_with('>'))) {
        // declared generics are named without their parameters
        let mut s = full.clone();
        while let Some(i) = s.find("PhantomData<").map(|i| i + 11).or_else(|| ["GOne<", "GTwo<", "GTup<"].iter().filter_map(|g| s.find(g).map(|i| i + 4)).next()) {
            let mut d = 0;
            let mut e = i;
            for (k, c) in s[i..].char_indices() {
                match c {
                    '<' => d += 1,
                    '>' => d -= 1,
                    _ => {}
                }
                if d == 0 {
                    e = i + k;
                    break;
                }
            }
            s.replace_range(i..=e, "");
        }
        v.push(s);
    }
    v.push(full.replace(", FixedState>", ">"));
    v.push(full.replace("NonZero<", "core::num::NonZero<"));
    v
}

mod elsewhere {
    use corpus::*;
    use facet_core::{Facet, Shape};
    use std::borrow::Cow;
    use std::collections::{BTreeMap, HashMap};
    use std::sync::Arc;

    macro_rules! shapes {
        ($([$($t:tt)*])*) => {
            /// The descriptions of the root types as this crate sees them (those in `T` were made by
            /// the crate of the types).
            pub static SHAPES: &[fn() -> &'static Shape] = &[$(|| <$($t)* as Facet>::SHAPE),*];
        };
    }
    corpus::with_roots!(shapes);
}

fn pairs(s: &mut Src, cx: &mut Ctx) -> R {
    let (ia, ib) = (s.below(ROOTS.len()), s.below(ROOTS.len()));
    let (ra, rb) = (&ROOTS[ia], &ROOTS[ib]);
    let (a, b) = ((ra.ty)(), (rb.ty)());
    cx.nontrivial();
    cx.key(&format!("{}|{}", ra.name, rb.name));
    cx.sample(|| format!("{} vs {}", ra.name, rb.name));
    let same = a.id == b.id;
    let (sa, sb) = (a.sh(), b.sh());
    ensure!((sa == sb) == same, "shape-eq", "{} == {}: {}", a.name, b.name, sa == sb);
    ensure!((sa.id == sb.id) == same, "id-eq", "ids of {} and {}: equal {}", a.name, b.name, sa.id == sb.id);
    ensure!(sa.is_shape(sb) == same, "is-shape", "{}.is_shape({}): {}", a.name, b.name, sa.is_shape(sb));
    use std::hash::{DefaultHasher, Hash, Hasher};
    let h = |x: &Shape| {
        let mut d = DefaultHasher::new();
        x.hash(&mut d);
        d.finish()
    };
    ensure!(!same || h(sa) == h(sb), "shape-hash", "{}: equal shapes hash differently", a.name);
    // the same types, described by another crate
    let (ea, eb) = (elsewhere::SHAPES[ia](), elsewhere::SHAPES[ib]());
    for (x, y, n, same) in [(sa, ea, a.name, true), (sb, eb, b.name, true), (sa, eb, b.name, same), (ea, sb, a.name, same)] {
        ensure!((x == y) == same, "elsewhere-eq", "{} and {n} as another crate describes it: {}", a.name, x == y);
        ensure!((x.id == y.id) == same && x.is_shape(y) == same, "elsewhere-id", "ids of {} and {n} as another crate describes it: {}", a.name, x.id == y.id);
        ensure!(!same || h(x) == h(y), format!("elsewhere-hash:{}", kind(a)), "{n}: two crates' descriptions are equal but hash differently");
        ensure!(x.id.cmp(&y.id).is_eq() == same && x.id.cmp(&y.id) == y.id.cmp(&x.id).reverse(), "elsewhere-order", "ids of {} and {n} as another crate describes it are ordered {:?}", a.name, x.id.cmp(&y.id));
    }
    // lifetimes do not distinguish types here
    let name = sa.to_string().replace("'_, ", "").replace("'static, ", "");
    let want = expected_names(a);
    ensure!(want.contains(&name), format!("name:{}", kind(a)), "{} is named {name:?}", a.rust_name);
    // the same name, its parameters left out below some depth
    let d = s.below(4);
    // (either ellipsis will do)
    let got = Shown(a, d as isize).to_string().replace('…', "⋯");
    let want = short_name(a, d);
    ensure!(got == want, format!("name-cut:{}", kind(a)), "{} named to depth {d} is {got:?}, should be {want:?}", a.rust_name);
    ensure!((b.is_type)(sa) == same, "is-type", "the shape of {} is_type::<{}>(): {}", a.name, b.name, !same);
    if s.chance(1, 8) {
        let asserted = guarded(|| (b.assert_type)(sa)).is_ok();
        ensure!(asserted == same, "assert-type", "assert_type::<{}>() on {}: passes {asserted}", b.name, a.name);
        let asserted = guarded(|| sa.assert_shape(sb)).is_ok();
        ensure!(asserted == same, "assert-shape", "{}.assert_shape({}): passes {asserted}", a.name, b.name);
        let w = Wip::alloc_shape(sa);
        ensure!((b.current_is)(&w) == same, "current-is-type", "current_is_type::<{}>() at a {}: {}", b.name, a.name, !same);
    }
    if let (K::Arc(e), Def::SmartPointer(d)) = (&a.k, sa.def) {
        let Some(weak) = d.weak else { return fail("weak", format!("{}: no weak counterpart", a.name)) };
        let (ws, e) = (weak(), e());
        ensure!(ws != sa && ws != sb && *ws == *weak(), "weak-identity", "the weak counterpart of {} is confused with {} or {}", a.name, a.name, b.name);
        ensure!(ws.to_string() == format!("Weak<{}>", e.sh()), "weak-name", "the weak counterpart of {} is named {ws}", a.name);
        if let Def::SmartPointer(w) = ws.def {
            ensure!(w.strong.is_some_and(|f| f() == sa), "weak-strong", "{ws}: its strong counterpart is not {}", a.name);
        }
    }
    let l = sa.allocate();
    let at = l.as_mut_byte_ptr();
    let ok = !at.is_null() && at as usize % a.align == 0;
    if a.size > 0 {
        unsafe {
            std::ptr::write_bytes(at, 1, a.size);
            std::alloc::dealloc(at, std::alloc::Layout::from_size_align_unchecked(a.size, a.align));
        }
    }
    ensure!(ok, "allocate", "{}: allocate() gives {at:?}", a.name);
    Ok(())
}

struct Shown(T, isize);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut o = facet_core::TypeNameOpts::none();
        o.recurse_ttl = self.1;
        self.0.sh().write_type_name(f, o)
    }
}
/// The name with `d` levels of parameters.
fn short_name(t: T, d: usize) -> String {
    let sub = |e: T| short_name(e, d - 1);
    let c = d == 0;
    match &t.k {
        K::List(e) => format!("Vec<{}>", if c { "⋯".into() } else { sub(e()) }),
        K::Opt(e) => format!("Option<{}>", if c { "⋯".into() } else { sub(e()) }),
        K::Arc(e) => format!("Arc<{}>", if c { "⋯".into() } else { sub(e()) }),
        K::Slice(e) => format!("&[{}]", if c { "⋯".into() } else { sub(e()) }),
        K::Array(e, n) => format!("[{}; {n}]", if c { "⋯".into() } else { sub(e()) }),
        K::Map(m, k, e) => format!("{}<{}>", if *m == Mk::Hash { "HashMap" } else { "BTreeMap" }, if c { "⋯".into() } else { format!("{}, {}", sub(k()), sub(e())) }),
        K::St(Stk::Tuple, f) => {
            let one = if f.len() == 1 { "," } else { "" };
            if c { format!("(⋯{one})") } else { format!("({}{one})", f.iter().map(|f| sub(f.t())).collect::<Vec<_>>().join(", ")) }
        }
        _ => t.sh().to_string(),
    }
}

/// Values of different types are never equal, never ordered; handing out a value as another type is refused.
fn across(s: &mut Src, cx: &mut Ctx) -> R {
    let (ra, rb) = (pick_root(s), pick_root(s));
    let a = (ra.ty)();
    let b = if s.chance(1, 4) { a } else { (rb.ty)() };
    let same = a.id == b.id;
    let o = Opt { max_elems: 2, depth: 3, ..Opt::default() };
    let (va, vb) = (gen_v(a, s, o), gen_v(b, s, o));
    cx.sample(|| format!("{} {va:?} / {} {vb:?}", a.name, b.name));
    cx.key(&format!("{}|{}", a.name, b.name));
    cx.label(if same { "same" } else { "different" });
    cx.nontrivial();
    corpus::trk::reset();
    let scope = Scope::begin();
    let res = guarded(|| -> R {
        let (ma, mb) = (Mem::of(a, &va), Mem::of(b, &vb));
        let r = (|| -> R {
            let (pa, pb) = unsafe { (Peek::unchecked_new(ma.konst(), a.sh()), Peek::unchecked_new(mb.konst(), b.sh())) };
            let (eq, ord) = (Peek::eq(&pa, &pb), Peek::partial_cmp(&pa, &pb));
            if same {
                let off = (a.sh().vtable.eq.is_some(), a.sh().vtable.partial_ord.is_some());
                ensure!(eq.is_some() == off.0 && (off.1 || ord.is_none()), "peek-compare", "{}: eq gives {eq:?}, partial_cmp {ord:?}", a.name);
            } else {
                ensure!(eq.is_none() && ord.is_none() && pa != pb && PartialOrd::partial_cmp(&pa, &pb).is_none(), "peek-compare", "a {} and a {} compare: {eq:?} {ord:?}", a.name, b.name);
            }
            ensure!(pa.shape() == a.sh() && pb.shape() == b.sh(), "peek-shape", "shapes of {} and {}", a.name, b.name);
            Ok(())
        })();
        unsafe {
            (a.dropp)(ma.p);
            (b.dropp)(mb.p);
        }
        r
    });
    let rep = scope.end();
    match res {
        Ok(r) => r?,
        Err(p) => return fail(panic_sig(&p), format!("{}, {}: panicked: {} at {}", a.name, b.name, p.0, p.1)),
    }
    mem_check(&rep, "across")
}

fn pick_other(a: T, s: &mut Src) -> T {
    match (s.below(4), &a.k) {
        (0, _) => a,
        (1, K::Opt(e)) => e(),
        (1, K::List(e) | K::Slice(e) | K::Array(e, _) | K::Arc(e)) => e(),
        (1 | 2, K::St(_, f)) if !f.is_empty() => f[s.below(f.len())].t(),
        _ => (pick_root(s).ty)(),
    }
}

fn typed(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_root(s);
    let root = (r.ty)();
    // the slot: the root itself, a field of it, or the payload of an option
    let mut slot = root;
    let mut steps: Vec<usize> = vec![];
    while let K::St(_, f) = &slot.k {
        if f.is_empty() || !s.chance(2, 3) {
            break;
        }
        let i = s.below(f.len());
        steps.push(i);
        slot = f[i].t();
    }
    let into_some = if let K::Opt(_) = slot.k { s.chance(1, 3) } else { false };
    if let (true, K::Opt(e)) = (into_some, &slot.k) {
        slot = e();
    }
    let other = pick_other(slot, s);
    let o = Opt { max_elems: 2, depth: 3, ..Opt::default() };
    let v = gen_v(other, s, o);
    let fits = other.id == slot.id || matches!(&slot.k, K::Opt(e) if e().id == other.id);
    let mode = s.below(4);
    cx.sample(|| format!("{} steps {steps:?} some {into_some}: slot {} gets {} {v:?} (mode {mode})", r.name, slot.name, other.name));
    cx.label(if fits { "fits" } else { "does not fit" });
    cx.nontrivial();
    corpus::trk::reset();
    let rv = gen_v(root, s, o);
    // what the slot should hold afterwards
    let stored = if other.id == slot.id { v.clone() } else { V::some(v.clone()) };
    let scope = Scope::begin();
    let res = guarded(|| -> R {
        match mode {
            0 | 1 => {
                // put, or put through a peek
                let mut w = Wip::alloc_shape(root.sh());
                for i in &steps {
                    w = w.field(*i).map_err(|e| Fail { sig: "field".into(), msg: format!("field({i}): {e}") })?;
                }
                if into_some {
                    w = w.push_some().map_err(|e| Fail { sig: "push_some".into(), msg: format!("{e}") })?;
                }
                let put = if mode == 0 {
                    (other.put)(w, &v)
                } else {
                    let m = Mem::of(other, &v);
                    let p = unsafe { Peek::unchecked_new(m.konst(), other.sh()) };
                    let r = w.put_peek(p);
                    let left = unsafe { (other.readp)(m.p) };
                    let unharmed = left == v;
                    unsafe { (other.dropp)(m.p) };
                    ensure!(unharmed, "peek-source-harmed", "put_peek left its source {left:?}, was {v:?}");
                    r
                };
                match put {
                    Ok(w) => {
                        ensure!(fits, "put-accepted", "slot {} accepted a {}", slot.name, other.name);
                        if steps.is_empty() && !into_some {
                            let hv = w.build().map_err(|e| Fail { sig: "build".into(), msg: format!("{}: build: {e}", root.name) });
                            let inv_ok = root.invariant.is_none_or(|f| f(&stored));
                            match hv {
                                Ok(hv) => {
                                    let got = (root.materialize)(hv);
                                    ensure!(got.as_ref().ok() == Some(&stored), "put-value", "slot {} given {v:?} holds {got:?}", slot.name);
                                    untracked(|| drop(got));
                                }
                                Err(e) => {
                                    if inv_ok {
                                        return Err(e);
                                    }
                                }
                            }
                        } else {
                            drop(w);
                        }
                    }
                    Err(e) => {
                        let text = e.to_string();
                        ensure!(!fits || (mode == 1 && other.sh().vtable.clone_into.is_none()), "put-refused", "slot {} refused a {}: {text}", slot.name, other.name);
                    }
                }
            }
            2 => {
                // materialise a finished value as some type
                let w = (root.put)(Wip::alloc_shape(root.sh()), &rv).map_err(|e| Fail { sig: "put-root".into(), msg: format!("{e}") })?;
                let hv = match w.build() {
                    Ok(h) => h,
                    Err(e) => {
                        ensure!(root.invariant.is_some_and(|f| !f(&rv)), "build-root", "{}: {e}", root.name);
                        return Ok(());
                    }
                };
                let target = pick_other(root, s);
                let got = (target.materialize)(hv);
                let same = target.id == root.id;
                ensure!(got.is_ok() == same, "materialize", "a {} materialised as {}: {}", root.name, target.name, got.is_ok());
                if same {
                    ensure!(got.as_ref().ok() == Some(&rv), "materialize-value", "{}: materialised {got:?}, was {rv:?}", root.name);
                }
                untracked(|| drop(got));
            }
            _ => {
                // read as some type
                let m = Mem::of(root, &rv);
                let p = unsafe { Peek::unchecked_new(m.konst(), root.sh()) };
                let target = pick_other(root, s);
                let got = (target.read)(p);
                let same = target.id == root.id;
                let after = (root.read)(p);
                let r1 = got.is_ok() == same && (!same || got.as_ref().ok() == Some(&rv));
                let r2 = after.as_ref().ok() == Some(&rv);
                unsafe { (root.dropp)(m.p) };
                ensure!(r1, "read-as", "a {} read as {}: {got:?}", root.name, target.name);
                ensure!(r2, "read-harmed", "a {} reads {after:?} after being read as {}", root.name, target.name);
                untracked(|| drop((got, after)));
            }
        }
        Ok(())
    });
    let rep = scope.end();
    match res {
        Ok(r) => r?,
        Err(p) => return fail(panic_sig(&p), format!("{}: panicked: {} at {}", root.name, p.0, p.1)),
    }
    mem_check(&rep, if fits { "accepted" } else { "refused" })
}

pub const PROP: Prop = Prop {
    id: "S04",
    targets: &[
        Target { name: "pairs", quick: 300_000, thorough: 2_000_000, rule: "a random ordered pair of root types: shape equality, id equality, is_shape and hashes against TypeId; the rendered name against the compiler's. Every case counts; distinct counts ordered pairs", f: pairs },
        Target { name: "odd", quick: 100_000, thorough: 1_000_000, rule: "an ordered pair of the 23 types outside the corpus model (NonNull<T>, Weak<T>, an opaque Arc, ConstTypeId, RandomState) and a random root type: identity, names, typed reads, puts and materialisation under the tracking allocator. Every case counts", f: crate::odd::identity },
        Target { name: "across", quick: 150_000, thorough: 4_000_000, rule: "values of two random types (a quarter of them the same type) compared through Peek: never equal, never ordered unless the types are the same. Every case counts; distinct counts ordered pairs", f: across },
        Target { name: "typed", quick: 300_000, thorough: 6_000_000, rule: "a random slot (root, nested field, option payload) and a value of its own, a related or an unrelated type: put, put_peek, materialize and get must succeed exactly on the slot's type (or an optional slot's payload) and leave everything intact under the tracking allocator. Every case counts", f: typed },
    ],
};
