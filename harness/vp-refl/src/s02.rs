//! S02: erased operations against the type's own.
use crate::common::*;
use std::cmp::Ordering;

struct D<F: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result>(F);
impl<F: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Display for D<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0)(f)
    }
}
impl<F: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Debug for D<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0)(f)
    }
}

fn avail(name: &str, t: T, offered: bool, native: bool) -> R {
    if offered && !native {
        // hash maps offer hashing although the native type does not
        // arrays and options pass on what their element offers
        if matches!((name, &t.k), ("display", K::Array(..)) | ("parse", K::Opt(_))) {
            return Ok(());
        }
        if name == "hash" && t.any(&mut |x| matches!(x.k, K::Map(Mk::Hash, ..))) && !is_native(t) {
            return Ok(());
        }
        return fail(format!("offered-without-impl:{name}:{}", kind(t)), format!("{}: {name} is offered but the type does not implement it", t.name));
    }
    if !offered && native && is_native(t) && !t.name.contains('<') && t.name != "PhantomData" {
        return fail(format!("impl-not-offered:{name}:{}", kind(t)), format!("{}: {name} is implemented but not offered", t.name));
    }
    Ok(())
}

pub fn kind(t: T) -> &'static str {
    match &t.k {
        K::Sc(_) => "scalar",
        K::St(Stk::Tuple, _) => "tuple",
        K::St(..) => "struct",
        K::En(..) => "enum",
        K::List(_) => "list",
        K::Slice(_) => "slice",
        K::Array(..) => "array",
        K::Map(..) => "map",
        K::Opt(_) => "option",
        K::Arc(_) => "arc",
    }
}

pub fn availability(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_root(s);
    let t = (r.ty)();
    let n = (r.natives)();
    let sh = t.sh();
    let vt = sh.vtable;
    cx.nontrivial();
    cx.key(r.name);
    cx.sample(|| r.name.to_string());
    avail("display", t, vt.display.is_some(), n.display.is_some())?;
    avail("debug", t, vt.debug.is_some(), n.debug.is_some())?;
    avail("default", t, vt.default_in_place.is_some(), n.default.is_some())?;
    avail("clone", t, vt.clone_into.is_some(), n.clone)?;
    avail("eq", t, vt.eq.is_some(), n.eq.is_some())?;
    avail("partial_ord", t, vt.partial_ord.is_some(), n.partial_cmp.is_some())?;
    avail("ord", t, vt.ord.is_some(), n.cmp.is_some())?;
    avail("hash", t, vt.hash.is_some(), n.hash.is_some())?;
    avail("parse", t, vt.parse.is_some(), n.parse.is_some())?;
    avail("Eq", t, vt.is_eq(), n.m_eq)?;
    avail("Send", t, vt.is_send(), n.m_send)?;
    avail("Sync", t, vt.is_sync(), n.m_sync)?;
    avail("Copy", t, vt.is_copy(), n.m_copy)?;
    avail("Unpin", t, vt.is_unpin(), n.m_unpin)?;
    // the questions a shape answers agree with its table
    let q: [(&str, bool, bool, Characteristic); 14] = [
        ("send", sh.is_send(), vt.is_send(), Characteristic::Send),
        ("sync", sh.is_sync(), vt.is_sync(), Characteristic::Sync),
        ("copy", sh.is_copy(), vt.is_copy(), Characteristic::Copy),
        ("eq", sh.is_eq(), vt.is_eq(), Characteristic::Eq),
        ("unpin", sh.is(Characteristic::Unpin), vt.is_unpin(), Characteristic::Unpin),
        ("clone", sh.is_clone(), vt.clone_into.is_some(), Characteristic::Clone),
        ("display", sh.is_display(), vt.display.is_some(), Characteristic::Display),
        ("debug", sh.is_debug(), vt.debug.is_some(), Characteristic::Debug),
        ("partial_eq", sh.is_partial_eq(), vt.eq.is_some(), Characteristic::PartialEq),
        ("partial_ord", sh.is_partial_ord(), vt.partial_ord.is_some(), Characteristic::PartialOrd),
        ("ord", sh.is_ord(), vt.ord.is_some(), Characteristic::Ord),
        ("hash", sh.is_hash(), vt.hash.is_some(), Characteristic::Hash),
        ("default", sh.is_default(), vt.default_in_place.is_some(), Characteristic::Default),
        ("from_str", sh.is_from_str(), vt.parse.is_some(), Characteristic::FromStr),
    ];
    for (name, a, b, c) in q {
        ensure!(a == b && sh.is(c) == b, format!("is-{name}"), "{}: is_{name}() says {a}, is({c:?}) says {}, the vtable says {b}", t.name, sh.is(c));
    }
    ensure!(sh.layout.size() == t.size && sh.layout.align() == t.align, "layout", "{}: layout {:?}, really size {} align {}", t.name, sh.layout, t.size, t.align);
    Ok(())
}

pub fn ops(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_root(s);
    let t = (r.ty)();
    let n = (r.natives)();
    let vt = t.sh().vtable;
    let o = Opt::default();
    let a = gen_v(t, s, o);
    let b = gen_near(t, &a, s, o);
    cx.sample(|| format!("{} a={a:?} b={b:?}", r.name));
    cx.nontrivial();
    cx.label(kind(t));
    let native = is_native(t);
    corpus::trk::reset();
    let (ma, mb) = (Mem::of(t, &a), Mem::of(t, &b));
    let (pa, pb) = (ma.konst(), mb.konst());
    let res = (|| -> R {
        // text
        if order_free(t, &a) {
            for k in 0..5u8 {
                if !native && k > 0 {
                    break;
                }
                let st = Style(k);
                if let (Some(f), Some(nf)) = (vt.display, n.display) {
                    let got = st.render(D(|fm| unsafe { f(pa, fm) }));
                    let want = nf(&a, &st);
                    ensure!(got == want, format!("display:{}", kind(t)), "{}: display of {a:?} (style {k}) gives {got:?}, natively {want:?}", t.name);
                    let got2 = st.render(unsafe { Peek::unchecked_new(pa, t.sh()) });
                    ensure!(got2 == want, "peek-display", "{}: Peek display of {a:?} gives {got2:?}, natively {want:?}", t.name);
                }
                if let (Some(f), Some(nf)) = (vt.debug, n.debug) {
                    let got = st.render_dbg(D(|fm| unsafe { f(pa, fm) }));
                    let want = nf(&a, &st);
                    ensure!(got == want, format!("debug:{}", kind(t)), "{}: debug of {a:?} (style {k}) gives {got:?}, natively {want:?}", t.name);
                    let got2 = st.render_dbg(unsafe { Peek::unchecked_new(pa, t.sh()) });
                    ensure!(got2 == want, "peek-debug", "{}: Peek debug of {a:?} gives {got2:?}, natively {want:?}", t.name);
                }
            }
        }
        // a text that cannot be written to its end is an error, and what was written is its beginning
        if s.chance(1, 4) {
            for (how, f) in [("display", vt.display), ("debug", vt.debug)] {
                let Some(f) = f else { continue };
                let full = D(|fm| unsafe { f(pa, fm) }).to_string();
                let n = s.below(full.len() + 2);
                let k = unsafe { Peek::unchecked_new(pa, t.sh()) };
                let peek = D(|fm| if how == "debug" { std::fmt::Debug::fmt(&k, fm) } else { std::fmt::Display::fmt(&k, fm) });
                let direct = D(|fm| unsafe { f(pa, fm) });
                for (by, d) in [("vtable", &direct as &dyn std::fmt::Display), ("Peek", &peek)] {
                    if let Err(m) = corpus::sink::judge(n, &full, |w| std::fmt::Write::write_fmt(w, format_args!("{d}"))) {
                        return fail("sink", format!("{}: {how} of {a:?} by {by} to a sink of {n} bytes: {m}", t.name));
                    }
                }
                cx.label("limited-sink");
            }
        }
        // an array shows its elements in order
        if let (Some(f), K::Array(e, _)) = (vt.display, &t.k) {
            let e = e();
            if let (Some(ef), true) = (e.sh().vtable.display, order_free(t, &a)) {
                let parts: Vec<String> = (0..a.fields().len()).map(|i| D(|fm| unsafe { ef(PtrConst::new(pa.as_byte_ptr().add(i * e.size)), fm) }).to_string()).collect();
                let (got, want) = (D(|fm| unsafe { f(pa, fm) }).to_string(), format!("[{}]", parts.join(", ")));
                ensure!(got == want, "display:array", "{}: display of {a:?} gives {got:?}, should be {want:?}", t.name);
            }
        }
        // what cannot be shown is named instead; what cannot be compared is neither equal nor ordered
        {
            let (k, l) = unsafe { (Peek::unchecked_new(pa, t.sh()), Peek::unchecked_new(pb, t.sh())) };
            if vt.display.is_none() {
                ensure!(k.to_string().contains(&t.sh().to_string()), "peek-name", "{}: Peek shows {:?}", t.name, k.to_string());
            }
            if vt.debug.is_none() {
                ensure!(format!("{k:?}").contains(&t.sh().to_string()), "peek-name", "{}: Peek shows {k:?}", t.name);
            }
            if vt.eq.is_none() {
                ensure!(k != l && k != k && Peek::eq(&k, &l).is_none(), "peek-eq", "{}: no equality, yet {a:?} equals {b:?}", t.name);
            }
            if vt.partial_ord.is_none() {
                ensure!(PartialOrd::partial_cmp(&k, &l).is_none() && Peek::partial_cmp(&k, &l).is_none(), "peek-partial_cmp", "{}: no order, yet {a:?} and {b:?} are ordered", t.name);
            }
        }
        // comparison
        let (ka, kb) = unsafe { (Peek::unchecked_new(pa, t.sh()), Peek::unchecked_new(pb, t.sh())) };
        if let (Some(f), Some(nf)) = (vt.eq, n.eq) {
            let want = nf(&a, &b);
            let got = unsafe { f(pa, pb) };
            ensure!(got == want, format!("eq:{}", kind(t)), "{}: {a:?} == {b:?} gives {got}, natively {want}", t.name);
            ensure!(unsafe { f(pb, pa) } == nf(&b, &a), format!("eq:{}", kind(t)), "{}: {b:?} == {a:?} differs from native", t.name);
            ensure!(unsafe { f(pa, pa) } == nf(&a, &a), format!("eq:{}", kind(t)), "{}: {a:?} == itself differs from native", t.name);
            ensure!(Peek::eq(&ka, &kb) == Some(want) && (ka == kb) == want, "peek-eq", "{}: Peek equality of {a:?} and {b:?} is not {want}", t.name);
            cx.label(if want { "equal pair" } else { "different pair" });
        }
        if let (Some(f), Some(nf)) = (vt.partial_ord, n.partial_cmp) {
            let want = nf(&a, &b);
            let got = unsafe { f(pa, pb) };
            ensure!(got == want, format!("partial_cmp:{}", kind(t)), "{}: partial_cmp({a:?}, {b:?}) gives {got:?}, natively {want:?}", t.name);
            ensure!(unsafe { f(pb, pa) } == nf(&b, &a), format!("partial_cmp:{}", kind(t)), "{}: partial_cmp({b:?}, {a:?}) differs from native", t.name);
            ensure!(Peek::partial_cmp(&ka, &kb) == want && PartialOrd::partial_cmp(&ka, &kb) == want, "peek-partial_cmp", "{}: Peek partial_cmp of {a:?} and {b:?} is not {want:?}", t.name);
            for (op, g, w) in [
                ("<", ka < kb, want == Some(Ordering::Less)),
                ("<=", ka <= kb, matches!(want, Some(Ordering::Less | Ordering::Equal))),
                (">", ka > kb, want == Some(Ordering::Greater)),
                (">=", ka >= kb, matches!(want, Some(Ordering::Greater | Ordering::Equal))),
            ] {
                ensure!(g == w, "peek-order", "{}: Peek {a:?} {op} {b:?} is {g}", t.name);
            }
        }
        if let (Some(f), Some(nf)) = (vt.ord, n.cmp) {
            let want = nf(&a, &b);
            let got = unsafe { f(pa, pb) };
            ensure!(got == want, format!("cmp:{}", kind(t)), "{}: cmp({a:?}, {b:?}) gives {got:?}, natively {want:?}", t.name);
            ensure!(unsafe { f(pb, pa) } == want.reverse(), format!("cmp:{}", kind(t)), "{}: cmp({b:?}, {a:?}) is not the reverse of {want:?}", t.name);
        }
        // hashing
        if let Some(f) = vt.hash {
            let h = |p: PtrConst<'static>| {
                let mut h = RecHasher::default();
                unsafe { f(p, PtrMut::new(&mut h as *mut RecHasher), |o, b| o.as_mut::<RecHasher>().0.extend_from_slice(b)) };
                h.0
            };
            let (ha, hb) = (h(pa), h(pb));
            if let Some(nf) = n.hash {
                if native || !t.any(&mut |x| matches!(x.k, K::Map(Mk::Hash, ..))) {
                    let want = nf(&a);
                    ensure!(ha == want, format!("hash:{}", kind(t)), "{}: hashing {a:?} feeds {ha:?}, natively {want:?}", t.name);
                }
            }
            if let Some(nf) = n.eq {
                if nf(&a, &b) {
                    ensure!(ha == hb, format!("equal-hash:{}", kind(t)), "{}: {a:?} and {b:?} are equal but hash to {ha:?} and {hb:?}", t.name);
                }
            }
            ensure!(h(pa) == ha, format!("hash-stable:{}", kind(t)), "{}: hashing {a:?} twice differs", t.name);
            let mut h2 = RecHasher::default();
            let offered = Peek::hash(&ka, &mut h2);
            let mut h3 = RecHasher::default();
            std::hash::Hash::hash(&ka, &mut h3);
            ensure!(h3.0 == ha, "peek-hash", "{}: hashing the Peek of {a:?} feeds {:?}", t.name, h3.0);
            ensure!(offered && h2.0 == ha, "peek-hash", "{}: Peek::hash of {a:?} gives {offered} {:?}", t.name, h2.0);
            // a value that was built differently still hashes the same
            let mc = Mem::of(t, &a);
            let hc = h(mc.konst());
            unsafe { (t.dropp)(mc.p) };
            if n.eq.is_some_and(|f| f(&a, &a)) {
                ensure!(hc == ha, format!("equal-hash:{}", kind(t)), "{}: two copies of {a:?} hash to {ha:?} and {hc:?}", t.name);
            }
        } else {
            ensure!(!Peek::hash(&ka, &mut RecHasher::default()), "peek-hash", "{}: Peek::hash claims to have hashed", t.name);
        }
        Ok(())
    })();
    unsafe {
        (t.dropp)(ma.p);
        (t.dropp)(mb.p);
    }
    res?;
    trk_check("ops")
}

pub fn life(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_root(s);
    let t = (r.ty)();
    let n = (r.natives)();
    let vt = t.sh().vtable;
    let a = gen_v(t, s, Opt::default());
    let b = gen_v(t, s, Opt { max_elems: 2, ..Opt::default() });
    // some text to parse
    let text: Option<String> = vt.parse.map(|_| {
        let base = match (s.below(4), n.display) {
            (0, Some(d)) => d(&a, &Style(0)),
            (1, Some(d)) => d(&gen_v(t, s, Opt::default()), &Style(0)),
            (2, _) => match &t.k {
                K::Sc(Sk::Int(..) | Sk::UInt(..)) => s.int(128).to_string(),
                K::Sc(Sk::F32 | Sk::F64) => format!("{:e}", s.f64(false)),
                K::Sc(Sk::Bool) => s.pick(&["true", "false", "True", "1", ""]).to_string(),
                _ => s.string(12),
            },
            _ => s.string(8),
        };
        if s.chance(1, 4) {
            match s.below(4) {
                0 => format!(" {base}"),
                1 => format!("{base} "),
                2 => format!("+{base}"),
                _ => base.chars().take(base.chars().count().saturating_sub(1)).collect(),
            }
        } else {
            base
        }
    });
    cx.sample(|| format!("{} {a:?} parse={text:?}", r.name));
    cx.nontrivial();
    cx.label(kind(t));
    let want_parse = text.as_ref().map(|x| untracked(|| n.parse.and_then(|f| f(x))));
    corpus::trk::reset();
    let scope = Scope::begin();
    let res = guarded(|| -> R {
        // drop
        let m = Mem::of(t, &a);
        match vt.drop_in_place {
            Some(f) => {
                unsafe { f(m.mutp()) };
            }
            None => {
                ensure!(!t.needs_drop, format!("no-drop:{}", kind(t)), "{}: offers no drop, but its values need one", t.name);
                unsafe { (t.dropp)(m.p) };
            }
        }
        ensure!(m.tail_intact(t), "overrun:drop", "{}: dropping wrote outside the value", t.name);
        drop(m);
        // default
        if let (Some(f), Some(nf)) = (vt.default_in_place, n.default) {
            let m = Mem::new(t);
            unsafe { f(m.uninit()) };
            let got = unsafe { (t.readp)(m.p) };
            let want = untracked(nf);
            unsafe { (t.dropp)(m.p) };
            ensure!(got == want, format!("default:{}", kind(t)), "{}: default is {got:?}, natively {want:?}", t.name);
            ensure!(m.tail_intact(t), "overrun:default", "{}: default wrote outside the value", t.name);
            untracked(|| drop((got, want)));
        }
        // clone: the copy is equal, independent and whole
        if let Some(f) = vt.clone_into {
            let m = Mem::of(t, &a);
            let c = Mem::new(t);
            unsafe { f(m.konst(), c.uninit()) };
            let src = unsafe { (t.readp)(m.p) };
            unsafe { (t.dropp)(m.p) };
            unsafe { std::ptr::write_bytes(m.p, 0xEE, t.size) };
            let got = unsafe { (t.readp)(c.p) };
            let dst_bad = corpus::trk::bad();
            unsafe { (t.dropp)(c.p) };
            ensure!(src == a, format!("clone-source:{}", kind(t)), "{}: after cloning, the source {a:?} reads {src:?}", t.name);
            ensure!(got == a && dst_bad.is_none(), format!("clone:{}", kind(t)), "{}: clone of {a:?} reads {got:?} {dst_bad:?}", t.name);
            ensure!(c.tail_intact(t), "overrun:clone", "{}: clone wrote outside the value", t.name);
            untracked(|| drop((src, got)));
        }
        // typed pointers: put, replace, move out, copy, drop in place
        let got = (t.pointers)(&a, &b);
        let want: Result<Vec<V>, &str> = untracked(|| Ok([&a, &b, &b, &a, &a].map(|v| v.clone()).to_vec()));
        ensure!(got == want, format!("pointers:{}", kind(t)), "{}: put {a:?}, replaced by {b:?}, moved out, put and copied: {got:?}", t.name);
        untracked(|| drop((got, want)));
        // parse
        if let (Some(f), Some(text), Some(want)) = (vt.parse, &text, &want_parse) {
            let m = Mem::new(t);
            let ok = unsafe {
                match f(text, m.uninit()) {
                    Ok(_) => true,
                    Err(e) => {
                        let _ = untracked(|| e.to_string());
                        false
                    }
                }
            };
            let got = if ok {
                let v = unsafe { (t.readp)(m.p) };
                unsafe { (t.dropp)(m.p) };
                Some(v)
            } else {
                None
            };
            ensure!(got == *want || n.parse.is_none(), format!("parse:{}", kind(t)), "{}: parsing {text:?} gives {got:?}, natively {want:?}", t.name);
            untracked(|| drop(got));
        }
        Ok(())
    });
    let rep = scope.end();
    match res {
        Ok(r) => r?,
        Err(p) => return fail(panic_sig(&p), format!("{}: {a:?}: panicked: {} at {}", t.name, p.0, p.1)),
    }
    mem_check(&rep, kind(t))
}

/// Finished values compare and print as the values they hold.
pub fn held(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick_root(s);
    let t = (r.ty)();
    let n = (r.natives)();
    let o = Opt { max_elems: 3, depth: 3, ..Opt::default() };
    let a = gen_v(t, s, o);
    let b = gen_near(t, &a, s, o);
    let other = (pick_root(s).ty)();
    let c = gen_v(other, s, o);
    if [(t, &a), (t, &b), (other, &c)].iter().any(|(t, v)| t.invariant.is_some_and(|f| !f(v))) {
        cx.label("invariant");
        return Ok(());
    }
    cx.sample(|| format!("{} a={a:?} b={b:?}", r.name));
    cx.nontrivial();
    cx.label(kind(t));
    corpus::trk::reset();
    let scope = Scope::begin();
    let res = guarded(|| -> R {
        let make = |t: T, v: &V| (t.put)(Wip::alloc_shape(t.sh()), v).and_then(|w| w.build()).map_err(|e| Fail { sig: "setup".into(), msg: format!("{}: {e}", t.name) });
        let (ha, hb, hc) = (make(t, &a)?, make(t, &b)?, make(other, &c)?);
        if let (Some(f), true) = (n.eq, t.sh().vtable.eq.is_some()) {
            let want = untracked(|| f(&a, &b));
            ensure!((ha == hb) == want, format!("held-eq:{}", kind(t)), "{}: the finished {a:?} == {b:?}: {}", t.name, !want);
        }
        if let (Some(f), true) = (n.partial_cmp, t.sh().vtable.partial_ord.is_some()) {
            let want = untracked(|| f(&a, &b));
            let got = ha.partial_cmp(&hb);
            ensure!(got == want, format!("held-partial_cmp:{}", kind(t)), "{}: partial_cmp of the finished {a:?} and {b:?} is {got:?}, natively {want:?}", t.name);
        }
        if other.id != t.id {
            ensure!(ha != hc && ha.partial_cmp(&hc).is_none(), "held-across", "a finished {} equals or is ordered with a {}", t.name, other.name);
        }
        if order_free(t, &a) {
            let st = Style(if is_native(t) { s.below(5) as u8 } else { 0 });
            if let (Some(f), true) = (n.display, t.sh().vtable.display.is_some()) {
                let (want, got) = untracked(|| (f(&a, &st), st.render(&ha)));
                ensure!(got == want, format!("held-display:{}", kind(t)), "{}: the finished {a:?} displays as {got:?}, natively {want:?}", t.name);
                untracked(|| drop((want, got)));
            }
            if let (Some(f), true) = (n.debug, t.sh().vtable.debug.is_some()) {
                let (want, got) = untracked(|| (f(&a, &st), st.render_dbg(&ha)));
                ensure!(got == want, format!("held-debug:{}", kind(t)), "{}: the finished {a:?} debugs as {got:?}, natively {want:?}", t.name);
                untracked(|| drop((want, got)));
            }
        }
        if t.sh().vtable.eq.is_none() {
            ensure!(ha != hb, "held-eq", "{}: no equality, yet the finished {a:?} and {b:?} are equal", t.name);
        }
        if t.sh().vtable.partial_ord.is_none() {
            ensure!(ha.partial_cmp(&hb).is_none(), "held-partial_cmp", "{}: no order, yet the finished {a:?} and {b:?} are ordered", t.name);
        }
        // what cannot be shown is named instead
        if t.sh().vtable.display.is_none() || t.sh().vtable.debug.is_none() {
            let txt = untracked(|| if t.sh().vtable.display.is_none() { format!("{ha}") } else { format!("{ha:?}") });
            let ok = untracked(|| txt.contains(&t.sh().to_string()));
            ensure!(ok, "held-name", "{}: shown as {txt:?}", t.name);
            untracked(|| drop(txt));
        }
        Ok(())
    });
    let rep = scope.end();
    match res {
        Ok(r) => r?,
        Err(p) => return fail(panic_sig(&p), format!("{}: {a:?}: panicked: {} at {}", t.name, p.0, p.1)),
    }
    mem_check(&rep, "held")
}

pub const PROP: Prop = Prop {
    id: "S02",
    targets: &[Target { name: "markers", quick: 40_000, thorough: 200_000, rule: "a type whose parts lack Send, Sync, Copy, Eq, Unpin or Clone, alone, as a field of a derived type or inside every container the library knows (as key, value, hasher, element, each place of each tuple): the shape claims no marker the compiler does not find, and misses none of a type that is not generic. Non-trivial: the type lacks a marker", f: crate::markers::run }, 
        Target { name: "availability", quick: 16_000, thorough: 40_000, rule: "a random root type of the corpus; every characteristic and marker the shape claims is compared with what the compiler resolves for the type. Every case counts; distinct counts types", f: availability },
        Target { name: "ops", quick: 240_000, thorough: 6_000_000, rule: "a random root type and a pair of values (equal, near or independent); display, debug (five format styles), eq, partial_cmp, cmp and hash through the vtable and through Peek against the native implementations. Every case counts", f: ops },
        Target { name: "held", quick: 120_000, thorough: 3_000_000, rule: "two values of a random root type built through the builder: equality, order, display and debug of the finished HeapValues against the native implementations, and against a value of another type. Every case counts", f: held },
        Target { name: "odd", quick: 60_000, thorough: 600_000, rule: "a value of one of 23 types outside the corpus model (NonNull<T>, Weak<T>, an opaque Arc, ConstTypeId, RandomState): clone, drop, debug, default, equality, order, hash against the native implementations, reference counts and the tracking allocator. Every case counts", f: crate::odd::operations },
        Target { name: "life", quick: 240_000, thorough: 6_000_000, rule: "a random root type and value; drop, default, clone and parse through the vtable under the tracking allocator, against the native results. Every case counts", f: life },
    ],
};
