//! W04 (and part of W01, W03): a given value, spelled out piece by piece.
use crate::common::*;
use crate::w::{W, enterable, text_of};
use facet_reflect::ReflectError;
use vpcore::alloc::tracked;

type Res = Result<W, ReflectError>;

fn put(w: W, t: T, v: &V, s: &mut Src) -> Res {
    let how = if t.sh().vtable.clone_into.is_some() { s.below(4) } else { s.below(2) };
    if how < 2 {
        return tracked(|| (t.put)(w, v));
    }
    tracked(|| {
        let m = Mem::of(t, v);
        let r = if how == 3 { w.put_shape(m.konst(), t.sh()) } else { w.put_peek(unsafe { Peek::unchecked_new(m.konst(), t.sh()) }) };
        if how == 2 || r.is_err() {
            unsafe { (t.dropp)(m.p) };
        }
        r
    })
}

fn fields(mut w: W, fs: &[Fd], x: &[V], s: &mut Src) -> Res {
    let mut order: Vec<usize> = (0..fs.len()).collect();
    s.shuffle(&mut order);
    for i in order {
        if s.chance(1, 8) {
            // a look inside first
            w = tracked(|| w.field(i))?;
            w = tracked(|| w.pop())?;
            if matches!(&fs[i].t().k, K::St(_, f) if f.is_empty()) {
                continue;
            }
        }
        let byname = s.bool();
        w = tracked(|| if byname { w.field_named(fs[i].name) } else { w.field(i) })?;
        w = place(w, fs[i].t(), &x[i], s)?;
        w = tracked(|| w.pop())?;
    }
    Ok(w)
}

/// Puts `v` where the builder is, which nothing has been put into yet.
pub fn place(mut w: W, t: T, v: &V, s: &mut Src) -> Res {
    if s.chance(1, 6) || !enterable(t) {
        return put(w, t, v, s);
    }
    match (&t.k, v) {
        (K::St(_, fs), V::St(x)) => {
            if fs.is_empty() {
                return put(w, t, v, s);
            }
            fields(w, fs, x, s)
        }
        (K::En(_, vs), V::En(k, x)) => {
            if s.chance(1, 4) {
                // change of mind
                let o = s.below(vs.len());
                w = tracked(|| w.variant(o))?;
                if let (Some(f), true) = (vs[o].fields.first(), s.bool()) {
                    w = tracked(|| w.field(0))?;
                    let other = gen_v(f.t(), s, O);
                    w = place(w, f.t(), &other, s)?;
                    w = tracked(|| w.pop())?;
                }
            }
            let byname = s.bool();
            w = tracked(|| if byname { w.variant_named(vs[*k].name) } else { w.variant(*k) })?;
            fields(w, &vs[*k].fields, x, s)
        }
        (K::List(e), V::L(x)) => {
            let how = s.below(3);
            if how == 0 {
                w = tracked(|| w.put_empty_list())?;
            } else if how == 1 || x.is_empty() {
                w = tracked(|| w.begin_pushback())?;
            }
            for y in x {
                w = tracked(|| w.push())?;
                w = place(w, e(), y, s)?;
                w = tracked(|| w.pop())?;
            }
            Ok(w)
        }
        (K::Map(_, k, e), V::M(x)) => {
            let how = s.below(3);
            if how == 0 {
                w = tracked(|| w.put_empty_map())?;
            } else if how == 1 || x.is_empty() {
                w = tracked(|| w.begin_map_insert())?;
            }
            let mut order: Vec<usize> = (0..x.len()).collect();
            s.shuffle(&mut order);
            for i in order {
                let twice = s.chance(1, 5);
                if twice {
                    let other = gen_v(e(), s, O);
                    w = tracked(|| w.push_map_key())?;
                    w = place(w, k(), &x[i].0, s)?;
                    w = tracked(|| w.push_map_value())?;
                    w = place(w, e(), &other, s)?;
                    w = tracked(|| w.pop())?;
                }
                w = tracked(|| w.push_map_key())?;
                w = place(w, k(), &x[i].0, s)?;
                w = tracked(|| w.push_map_value())?;
                w = place(w, e(), &x[i].1, s)?;
                w = tracked(|| w.pop())?;
            }
            Ok(w)
        }
        (K::Opt(e), V::O(x)) => {
            let e = e();
            match x {
                None => match s.below(3) {
                    0 if !matches!(&e.k, K::St(_, f) if f.is_empty()) => {
                        w = tracked(|| w.push_some())?;
                        w = tracked(|| w.pop_some_push_none())?;
                        tracked(|| w.pop())
                    }
                    1 => tracked(|| w.put_default()),
                    _ => put(w, t, v, s),
                },
                Some(y) => {
                    if s.chance(1, 3) {
                        return put(w, e, y, s);
                    }
                    w = tracked(|| w.push_some())?;
                    w = place(w, e, y, s)?;
                    tracked(|| w.pop())
                }
            }
        }
        _ => {
            if s.bool() {
                if let Some(x) = text_of(t, v) {
                    return tracked(|| w.parse(&x));
                }
            }
            put(w, t, v, s)
        }
    }
}

const O: Opt = Opt { finite: false, max_elems: 2, depth: 2, str_max: 6 };

fn finish(root: T, v: &V, r: Res) -> R {
    let inv = root.invariant.is_none_or(|f| f(v));
    let w = match r {
        Ok(w) => w,
        Err(e) => return fail("step-refused", format!("a step was refused: {e}")),
    };
    match tracked(|| w.build()) {
        Ok(hv) => {
            if !inv {
                tracked(|| drop(hv));
                return fail("invariant-ignored", format!("{} built as {v:?}, which its invariants refuse", root.name));
            }
            let got = tracked(|| (root.materialize)(hv));
            ensure!(got.as_ref().ok() == Some(v), "value", "built {got:?} instead of {v:?}");
            Ok(())
        }
        Err(e) => {
            ensure!(!inv, "build-refused", "{} with {v:?}: build refused: {e}", root.name);
            ensure!(matches!(e, ReflectError::InvariantViolation { .. }), "invariant-error", "{v:?} breaks its invariants, but the error is {e}");
            Ok(())
        }
    }
}

fn run(root: T, v: V, s: &mut Src, cx: &mut Ctx) -> R {
    corpus::trk::reset();
    let text = format!("{} = {v:?}", root.name);
    cx.sample(|| text.clone());
    let scope = Scope::begin();
    let res = guarded(|| {
        untracked(|| {
            let w = tracked(|| Wip::alloc_shape(root.sh()));
            let r = place(w, root, &v, s);
            finish(root, &v, r)
        })
    });
    let rep = scope.end();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(f)) => return fail(f.sig, format!("{} -- {text}", f.msg)),
        Err(p) => return fail(panic_sig(&p), format!("panicked: {} at {} -- {text}", p.0, p.1)),
    }
    mem_check(&rep, "spelled").map_err(|f| Fail { sig: f.sig, msg: format!("{} -- {text}", f.msg) })
}

fn spell(s: &mut Src, cx: &mut Ctx) -> R {
    let mut root = (pick_root(s).ty)();
    while matches!(root.k, K::Sc(_) | K::Slice(_) | K::Array(..) | K::Arc(_)) && s.chance(7, 8) {
        root = (pick_root(s).ty)();
    }
    let v = gen_v(root, s, Opt { max_elems: 4, depth: 4, ..O });
    if v.size() > 4 {
        cx.nontrivial();
    }
    cx.key(&format!("{}{v:?}", root.name));
    run(root, v, s, cx)
}

pub fn with_invariant(s: &mut Src) -> T {
    let all: Vec<T> = ROOTS.iter().map(|r| (r.ty)()).filter(|t| t.invariant.is_some()).collect();
    all[s.below(all.len())]
}

fn invariants(s: &mut Src, cx: &mut Ctx) -> R {
    let root = with_invariant(s);
    let (v, holds) = near_invariant(root, s, O);
    cx.label(if holds { "holds" } else { "broken" });
    cx.label(&format!("{}:{holds}", root.name));
    cx.nontrivial();
    cx.key(&format!("{}{v:?}", root.name));
    run(root, v, s, cx)
}

pub const SPELL: Target = Target { name: "spell", quick: 300_000, thorough: 6_000_000, rule: "a random value of a random root type, spelled out through the builder in a random order and mixture of operations (including changes of mind and repeated map keys). Non-trivial: more than four nodes", f: spell };
pub const W04: Prop = Prop {
    id: "W04",
    targets: &[Target { name: "built", quick: 150_000, thorough: 4_000_000, rule: "a value of a type with invariants, about half of them breaking one, spelled out through the builder in a random way: the build must succeed iff the invariants (called natively) hold. Every case counts", f: invariants }],
};
