//! S05: containers driven through their descriptions, against models.
use crate::common::*;
use std::sync::OnceLock;

fn of_kind(f: fn(&Ty) -> bool) -> Vec<&'static Root> {
    ROOTS.iter().filter(|r| f((r.ty)())).collect()
}
macro_rules! kind_roots {
    ($name:ident, $p:pat) => {
        fn $name(s: &mut Src) -> T {
            static C: OnceLock<Vec<&'static Root>> = OnceLock::new();
            let v = untracked(|| C.get_or_init(|| of_kind(|t| matches!(t.k, $p))));
            (v[s.below(v.len())].ty)()
        }
    };
}
kind_roots!(a_list, K::List(_));
kind_roots!(a_map, K::Map(..));
kind_roots!(an_option, K::Opt(_));
kind_roots!(an_arc, K::Arc(_));
kind_roots!(a_seq, K::Slice(_) | K::Array(..));

/// A value in its own memory that is about to be moved out of it.
struct Moved(Mem, T);
impl Moved {
    fn new(t: T, v: &V) -> Moved {
        Moved(Mem::of(t, v), t)
    }
}
impl Drop for Moved {
    fn drop(&mut self) {
        // moved out: nothing may look here any more
        unsafe { std::ptr::write_bytes(self.0.p, 0xEE, self.1.size) };
    }
}

struct Case<'a> {
    cx: &'a mut Ctx,
    log: Vec<String>,
}
impl Case<'_> {
    fn op(&mut self, f: impl FnOnce() -> String) {
        untracked(|| self.log.push(f()))
    }
}

fn run(cx: &mut Ctx, head: String, f: impl FnOnce(&mut Case) -> R) -> R {
    corpus::trk::reset();
    let mut c = Case { cx, log: vec![head] };
    let scope = Scope::begin();
    let res = guarded(|| f(&mut c));
    let rep = scope.end();
    let log = std::mem::take(&mut c.log);
    let text = log.join("; ");
    cx.sample(|| text.clone());
    if log.len() > 3 {
        cx.nontrivial();
    }
    match res {
        Ok(Ok(())) => {}
        Ok(Err(f)) => return fail(f.sig, format!("{} -- after: {text}", f.msg)),
        Err(p) => return fail(panic_sig(&p), format!("panicked: {} at {} -- after: {text}", p.0, p.1)),
    }
    if let Err(f) = mem_check(&rep, "end") {
        return fail(f.sig, format!("{} -- after: {text}", f.msg));
    }
    Ok(())
}

const O: Opt = Opt { finite: false, max_elems: 2, depth: 2, str_max: 6 };

fn end(t: T, m: &Mem) {
    // released through the description where it offers that
    match t.sh().vtable.drop_in_place {
        Some(f) => unsafe {
            f(m.mutp());
        },
        None => unsafe { (t.dropp)(m.p) },
    }
}

fn refuses_index(f: impl FnOnce() -> PtrConst<'static>) -> bool {
    match guarded(f) {
        Ok(_) => false,
        Err(p) => {
            untracked(|| drop(p));
            true
        }
    }
}

fn lists(s: &mut Src, cx: &mut Ctx) -> R {
    let t = a_list(s);
    let K::List(e) = &t.k else { unreachable!() };
    let e = e();
    let Def::List(d) = t.sh().def else { return fail("def", format!("{} is no list", t.name)) };
    let head = t.name.to_string();
    run(cx, head, |c| {
        let mut model: Vec<V> = vec![];
        let m;
        if let (Some(init), true) = (d.vtable.init_in_place_with_capacity, s.chance(3, 4)) {
            let cap = s.below(9);
            m = Mem::new(t);
            unsafe { init(m.uninit(), cap) };
            c.op(|| format!("init({cap})"));
        } else {
            let v = untracked(|| gen_v(t, s, O));
            model.extend(untracked(|| v.fields().to_vec()));
            m = Mem::of(t, &v);
            c.op(|| format!("start from {v:?}"));
            untracked(|| drop(v));
        }
        let mut n = 0;
        while s.more(n, 24, 9, 10) {
            n += 1;
            match s.weighted(&[5, 1, 3, 1]) {
                0 => {
                    let v = untracked(|| gen_v(e, s, O));
                    c.op(|| format!("push {v:?}"));
                    let item = Moved::new(e, &v);
                    unsafe { (d.vtable.push)(m.mutp(), item.0.mutp()) };
                    untracked(|| model.push(v));
                }
                1 => {
                    let l = unsafe { (d.vtable.len)(m.konst()) };
                    ensure!(l == model.len(), "list-len", "len is {l}, should be {}", model.len());
                }
                2 if !model.is_empty() => {
                    let i = s.below(model.len());
                    let p = unsafe { (d.vtable.get_item_ptr)(m.konst(), i) };
                    let got = unsafe { (e.readp)(p.as_byte_ptr()) };
                    ensure!(got == model[i], "list-get", "element {i} is {got:?}, should be {:?}", model[i]);
                    untracked(|| drop(got));
                }
                _ => {
                    let i = model.len() + s.below(3);
                    ensure!(refuses_index(|| unsafe { (d.vtable.get_item_ptr)(m.konst(), i) }), "list-out-of-range", "element {i} of {} is handed out", model.len());
                }
            }
        }
        ensure!(m.tail_intact(t), "overrun", "wrote outside the list");
        let got = unsafe { (t.readp)(m.p) };
        let want = untracked(|| V::L(model));
        let ok = got == want;
        end(t, &m);
        ensure!(ok, "list-contents", "the list is {got:?}, should be {want:?}");
        untracked(|| drop((got, want)));
        c.cx.label("list");
        Ok(())
    })
}

fn maps(s: &mut Src, cx: &mut Ctx) -> R {
    let t = a_map(s);
    let K::Map(_, k, e) = &t.k else { unreachable!() };
    let (k, e) = (k(), e());
    let Def::Map(d) = t.sh().def else { return fail("def", format!("{} is no map", t.name)) };
    ensure!(d.k == k.sh() && d.v == e.sh(), "map-shapes", "{}: keys {}, values {}", t.name, d.k, d.v);
    run(cx, t.name.to_string(), |c| {
        let mut model: Vec<(V, V)> = vec![];
        let m;
        if s.chance(3, 4) {
            let cap = s.below(9);
            m = Mem::new(t);
            unsafe { (d.vtable.init_in_place_with_capacity_fn)(m.uninit(), cap) };
            c.op(|| format!("init({cap})"));
        } else {
            let v = untracked(|| gen_v(t, s, O));
            if let V::M(x) = &v {
                untracked(|| model.extend(x.iter().cloned()));
            }
            m = Mem::of(t, &v);
            c.op(|| format!("start from {v:?}"));
            untracked(|| drop(v));
        }
        let mut n = 0;
        while s.more(n, 24, 9, 10) {
            n += 1;
            // a key, often one that is there
            let key = untracked(|| if !model.is_empty() && s.bool() { model[s.below(model.len())].0.clone() } else { gen_v(k, s, O) });
            let at = model.iter().position(|(x, _)| *x == key);
            match s.weighted(&[5, 1, 2, 2, 2]) {
                0 => {
                    let v = untracked(|| gen_v(e, s, O));
                    c.op(|| format!("insert {key:?}: {v:?}"));
                    let (mk, mv) = (Moved::new(k, &key), Moved::new(e, &v));
                    unsafe { (d.vtable.insert_fn)(m.mutp(), mk.0.mutp(), mv.0.mutp()) };
                    untracked(|| match at {
                        Some(i) => model[i].1 = v,
                        None => model.push((key.clone(), v)),
                    });
                    if at.is_some() {
                        c.cx.label("replacing insert");
                    }
                }
                1 => {
                    let l = unsafe { (d.vtable.len_fn)(m.konst()) };
                    ensure!(l == model.len(), "map-len", "len is {l}, should be {}", model.len());
                }
                2 => {
                    let mk = Mem::of(k, &key);
                    let got = unsafe { (d.vtable.contains_key_fn)(m.konst(), mk.konst()) };
                    unsafe { (k.dropp)(mk.p) };
                    ensure!(got == at.is_some(), "map-contains", "contains {key:?}: {got}");
                }
                3 => {
                    let mk = Mem::of(k, &key);
                    let got = unsafe { (d.vtable.get_value_ptr_fn)(m.konst(), mk.konst()) };
                    unsafe { (k.dropp)(mk.p) };
                    let got = got.map(|p| unsafe { (e.readp)(p.as_byte_ptr()) });
                    let want = at.map(|i| &model[i].1);
                    ensure!(got.as_ref() == want, "map-get", "value of {key:?} is {got:?}, should be {want:?}");
                    untracked(|| drop(got));
                }
                _ => {
                    // look at some of the entries, or all
                    let stop = if s.bool() { usize::MAX } else { s.below(4) };
                    c.op(|| format!("iterate {}", if stop == usize::MAX { "all".into() } else { stop.to_string() }));
                    let it = unsafe { (d.vtable.iter_fn)(m.konst()) };
                    let mut seen: Vec<V> = vec![];
                    let mut r: R = Ok(());
                    for _ in 0..stop.min(model.len() + 2) {
                        let Some((kp, vp)) = (unsafe { (d.vtable.iter_vtable.next)(it) }) else { break };
                        let (kv, vv) = unsafe { ((k.readp)(kp.as_byte_ptr()), (e.readp)(vp.as_byte_ptr())) };
                        let fine = !seen.contains(&kv) && model.iter().any(|(a, b)| *a == kv && *b == vv);
                        if !fine {
                            r = fail("map-iter", untracked(|| format!("iteration gives {kv:?}: {vv:?}")));
                        }
                        untracked(|| {
                            seen.push(kv);
                            drop(vv);
                        });
                        if r.is_err() {
                            break;
                        }
                    }
                    unsafe { (d.vtable.iter_vtable.dealloc)(it) };
                    r?;
                    ensure!(seen.len() == model.len().min(stop), "map-iter-len", "iteration gave {} of {} entries", seen.len(), model.len());
                    if matches!(t.k, K::Map(Mk::BTree, ..)) {
                        ensure!(seen.windows(2).all(|w| w[0] < w[1]) && model.iter().filter(|(x, _)| seen.last().is_some_and(|l| x <= l)).count() == seen.len(), "map-order", "a sorted map was iterated as {seen:?}");
                    }
                    untracked(|| drop(seen));
                }
            }
            untracked(|| drop(key));
        }
        ensure!(m.tail_intact(t), "overrun", "wrote outside the map");
        let got = unsafe { (t.readp)(m.p) };
        let want = untracked(|| {
            model.sort();
            V::M(model)
        });
        let ok = got == want;
        end(t, &m);
        ensure!(ok, "map-contents", "the map is {got:?}, should be {want:?}");
        untracked(|| drop((got, want)));
        c.cx.label("map");
        Ok(())
    })
}

fn options(s: &mut Src, cx: &mut Ctx) -> R {
    let t = an_option(s);
    let K::Opt(e) = &t.k else { unreachable!() };
    let e = e();
    let Def::Option(d) = t.sh().def else { return fail("def", format!("{} is no option", t.name)) };
    run(cx, t.name.to_string(), |c| {
        let m = Mem::new(t);
        let mut model: Option<V>;
        if s.bool() {
            let v = untracked(|| gen_v(e, s, O));
            c.op(|| format!("init_some {v:?}"));
            let item = Moved::new(e, &v);
            unsafe { (d.vtable.init_some_fn)(m.uninit(), item.0.konst()) };
            model = Some(v);
        } else {
            c.op(|| "init_none".to_string());
            unsafe { (d.vtable.init_none_fn)(m.uninit()) };
            model = None;
        }
        let mut n = 0;
        while s.more(n, 16, 9, 10) {
            n += 1;
            match s.weighted(&[3, 2, 2, 1]) {
                0 => {
                    let v = untracked(|| gen_v(e, s, O));
                    c.op(|| format!("replace_with {v:?}"));
                    let item = Moved::new(e, &v);
                    unsafe { (d.vtable.replace_with_fn)(m.mutp(), Some(item.0.konst())) };
                    untracked(|| model = Some(v));
                }
                1 => {
                    c.op(|| "replace_with nothing".to_string());
                    unsafe { (d.vtable.replace_with_fn)(m.mutp(), None) };
                    untracked(|| model = None);
                }
                2 => {
                    let got = unsafe { (d.vtable.get_value_fn)(m.konst()) }.map(|p| unsafe { (e.readp)(p.as_byte_ptr()) });
                    ensure!(got == model, "option-value", "value is {got:?}, should be {model:?}");
                    untracked(|| drop(got));
                }
                _ => {
                    let got = unsafe { (d.vtable.is_some_fn)(m.konst()) };
                    ensure!(got == model.is_some(), "option-is-some", "is_some is {got} for {model:?}");
                }
            }
        }
        ensure!(m.tail_intact(t), "overrun", "wrote outside the option");
        let got = unsafe { (t.readp)(m.p) };
        let want = untracked(|| V::O(model.map(Box::new)));
        let ok = got == want;
        end(t, &m);
        ensure!(ok, "option-contents", "the option is {got:?}, should be {want:?}");
        untracked(|| drop((got, want)));
        c.cx.label("option");
        Ok(())
    })
}

fn arcs(s: &mut Src, cx: &mut Ctx) -> R {
    let t = an_arc(s);
    let K::Arc(e) = &t.k else { unreachable!() };
    let e = e();
    let Def::SmartPointer(d) = t.sh().def else { return fail("def", format!("{} is no smart pointer", t.name)) };
    ensure!(d.pointee == Some(e.sh()), "pointee", "{}: wrong pointee", t.name);
    let Some(weak_shape) = d.weak.map(|f| f()) else { return fail("weak", format!("{}: no weak counterpart", t.name)) };
    let Def::SmartPointer(wd) = weak_shape.def else { return fail("weak", format!("{}: weak is no smart pointer", t.name)) };
    ensure!(wd.strong.map(|f| f()) == Some(t.sh()), "strong", "{}: the weak counterpart names another strong type", t.name);
    ensure!(wd.vtable.borrow_fn.is_none() && wd.vtable.new_into_fn.is_none(), "weak-borrow", "{}: weak can be borrowed", t.name);
    ensure!(weak_shape.layout.size() == 8 && weak_shape.layout.align() == 8, "weak-layout", "{}: weak layout {:?}", t.name, weak_shape.layout);
    let (Some(new), Some(borrow), Some(down), Some(up)) = (d.vtable.new_into_fn, d.vtable.borrow_fn, d.vtable.downgrade_into_fn, wd.vtable.upgrade_into_fn) else {
        return fail("arc-ops", format!("{}: operations missing", t.name));
    };
    let Some(weak_drop) = weak_shape.vtable.drop_in_place else { return fail("weak-drop", format!("{}: weak has no drop", t.name)) };
    let Some(strong_drop) = t.sh().vtable.drop_in_place else { return fail("arc-drop", format!("{}: no drop", t.name)) };
    run(cx, t.name.to_string(), |c| {
        let v = untracked(|| gen_v(e, s, O));
        c.op(|| format!("new {v:?}"));
        // pointers to one shared value
        let mut strong: Vec<Mem> = untracked(Vec::new);
        let mut weak: Vec<Mem> = untracked(Vec::new);
        {
            let item = Moved::new(e, &v);
            let m = Mem::new(t);
            unsafe { new(m.uninit(), item.0.konst()) };
            untracked(|| strong.push(m));
        }
        let own = corpus::trk::live();
        let home = unsafe { borrow(strong[0].konst()) }.as_byte_ptr() as usize;
        let mut n = 0;
        while s.more(n, 24, 14, 15) {
            n += 1;
            match s.weighted(&[3, 3, 3, 3, 2, 2]) {
                0 if !strong.is_empty() => {
                    let i = s.below(strong.len());
                    let p = unsafe { borrow(strong[i].konst()) };
                    ensure!(p.as_byte_ptr() as usize == home, "arc-borrow", "borrowed elsewhere");
                    let got = unsafe { (e.readp)(p.as_byte_ptr()) };
                    ensure!(got == v, "arc-value", "shared value is {got:?}, should be {v:?}");
                    untracked(|| drop(got));
                }
                1 if !strong.is_empty() => {
                    c.op(|| "downgrade".into());
                    let i = s.below(strong.len());
                    let m = Mem::new(t);
                    unsafe { down(strong[i].mutp(), m.uninit()) };
                    ensure!(m.tail_intact(t), "overrun", "downgrade wrote outside");
                    untracked(|| weak.push(m));
                }
                2 if !weak.is_empty() => {
                    let i = s.below(weak.len());
                    let m = Mem::new(t);
                    let r = unsafe { up(weak[i].mutp(), m.uninit()) }.is_some();
                    c.op(|| format!("upgrade: {r}"));
                    ensure!(r == !strong.is_empty(), "arc-upgrade", "upgrade with {} strong pointers: {r}", strong.len());
                    if r {
                        untracked(|| strong.push(m));
                    }
                }
                3 if !strong.is_empty() && (strong.len() > 1 || s.bool()) => {
                    c.op(|| "drop a strong pointer".into());
                    let m = strong.swap_remove(s.below(strong.len()));
                    unsafe { strong_drop(m.mutp()) };
                }
                4 if !weak.is_empty() => {
                    c.op(|| "drop a weak pointer".into());
                    let m = weak.swap_remove(s.below(weak.len()));
                    unsafe { weak_drop(m.mutp()) };
                }
                _ => {
                    if let (Some(cl), false) = (t.sh().vtable.clone_into, strong.is_empty()) {
                        c.op(|| "clone".into());
                        let m = Mem::new(t);
                        unsafe { cl(strong[0].konst(), m.uninit()) };
                        let p = unsafe { borrow(m.konst()) };
                        ensure!(p.as_byte_ptr() as usize == home, "arc-clone", "a clone points elsewhere");
                        untracked(|| strong.push(m));
                    }
                }
            }
            // the compiler's own count agrees
            if let Some(m) = strong.first() {
                let (sc, wc) = unsafe {
                    let a = std::mem::ManuallyDrop::new(std::ptr::read(m.p as *const std::sync::Arc<u8>));
                    (std::sync::Arc::strong_count(&a), std::sync::Arc::weak_count(&a))
                };
                ensure!(sc == strong.len() && wc == weak.len(), "arc-count", "counts {sc}/{wc}, should be {}/{}", strong.len(), weak.len());
            }
            if e.any(&mut |x| matches!(x.k, K::Sc(Sk::Trk))) {
                let live = corpus::trk::live();
                ensure!(live == if strong.is_empty() { 0 } else { own }, "arc-release", "{live} of {own} shared values alive with {} strong pointers", strong.len());
            }
        }
        for m in untracked(|| std::mem::take(&mut strong)) {
            unsafe { strong_drop(m.mutp()) };
        }
        for m in untracked(|| std::mem::take(&mut weak)) {
            unsafe { weak_drop(m.mutp()) };
        }
        untracked(|| drop((v, strong, weak)));
        c.cx.label("arc");
        Ok(())
    })
}

fn seqs(s: &mut Src, cx: &mut Ctx) -> R {
    let t = a_seq(s);
    let v = gen_v(t, s, Opt { max_elems: 8, ..O });
    cx.sample(|| format!("{} {v:?}", t.name));
    cx.nontrivial();
    corpus::trk::reset();
    let items = v.fields();
    let m = Mem::of(t, &v);
    let res = (|| -> R {
        let (e, len, get): (T, usize, Box<dyn Fn(usize) -> PtrConst<'static>>) = match (&t.k, t.sh().def) {
            (K::Slice(e), Def::Slice(d)) => {
                let p = m.konst();
                (e(), unsafe { (d.vtable.len)(p) }, Box::new(move |i| unsafe { (d.vtable.get_item_ptr)(p, i) }))
            }
            (K::Array(e, _), Def::Array(d)) => {
                let p = m.konst();
                (e(), d.n, Box::new(move |i| unsafe { (d.vtable.get_item_ptr)(p, i) }))
            }
            _ => return fail("def", format!("{} is described as something else", t.name)),
        };
        ensure!(len == items.len(), "seq-len", "{}: length {len}, should be {}", t.name, items.len());
        for (i, x) in items.iter().enumerate() {
            let got = unsafe { (e.readp)(get(i).as_byte_ptr()) };
            ensure!(got == *x, "seq-get", "{}: element {i} is {got:?}, should be {x:?}", t.name);
        }
        let i = len + s.below(4);
        ensure!(refuses_index(|| get(i)), "seq-out-of-range", "{}: element {i} of {len} is handed out", t.name);
        Ok(())
    })();
    unsafe { (t.dropp)(m.p) };
    res?;
    trk_check("seq")
}

const RULE: &str = "a random container type of the corpus and a random sequence of up to 24 operations on it through its description, against a model, under the tracking allocator, with moved-from memory poisoned. Non-trivial: at least three logged operations";

pub const PROP: Prop = Prop {
    id: "S05",
    targets: &[
        Target { name: "lists", quick: 80_000, thorough: 2_500_000, rule: RULE, f: lists },
        Target { name: "maps", quick: 80_000, thorough: 2_500_000, rule: RULE, f: maps },
        Target { name: "options", quick: 80_000, thorough: 2_500_000, rule: RULE, f: options },
        Target { name: "arcs", quick: 80_000, thorough: 2_500_000, rule: RULE, f: arcs },
        Target { name: "seqs", quick: 40_000, thorough: 1_000_000, rule: "a random slice or array value; length, every element and out-of-range indices. Every case counts", f: seqs },
    ],
};
