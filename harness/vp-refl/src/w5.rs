//! W05: storing a floating-point number.
use crate::common::*;
use crate::w::W;
use facet_reflect::ReflectError;
use vpcore::alloc::tracked;

const O: Opt = Opt { finite: true, max_elems: 2, depth: 2, str_max: 6 };

/// What the slot must hold afterwards; None: must be refused.
enum Want {
    Value(V),
    Refuse,
    Open,
}

/// Exact comparison, by integers.
fn within(x: f64, min: i128, max: i128) -> Option<i128> {
    if !x.is_finite() || x.abs() >= 2f64.powi(120) {
        return None;
    }
    let t = x as i128;
    let whole = x.fract() == 0.0;
    let above = t > max || (t == max && !whole && x > 0.0);
    let below = t < min || (t == min && !whole && x < 0.0);
    if above || below { None } else { Some(t) }
}

fn want(t: T, x: f64) -> Want {
    match &t.k {
        K::Sc(Sk::UInt(b, nz)) if *b <= 64 => match within(x, *nz as i128, (1i128 << b) - 1) {
            Some(n) => Want::Value(V::U(n as u128)),
            None => Want::Refuse,
        },
        K::Sc(Sk::Int(b, nz)) if *b <= 64 => match within(x, -(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) {
            Some(0) if *nz => Want::Refuse,
            Some(n) => Want::Value(V::I(n)),
            None => Want::Refuse,
        },
        K::Sc(Sk::F64) => {
            if x.is_finite() {
                Want::Value(V::F64(x.to_bits()))
            } else {
                Want::Open
            }
        }
        K::Sc(Sk::F32) => {
            // the nearest; what rounds to the largest from above, and what isn't finite, is left open
            if x.abs() <= f32::MAX as f64 {
                Want::Value(V::F32((x as f32).to_bits()))
            } else if x.is_finite() && (x as f32).is_infinite() {
                Want::Refuse
            } else {
                Want::Open
            }
        }
        K::Sc(Sk::UInt(..) | Sk::Int(..)) => Want::Open,
        _ => Want::Refuse,
    }
}

fn number(s: &mut Src) -> f64 {
    let base = match s.below(8) {
        0 => s.f64(true),
        1 => f64::from_bits(s.u64()),
        2 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f32::MAX as f64, f32::MIN as f64]),
        3 => s.int(64) as f64,
        _ => {
            // a power of two, or one off it
            let b = *s.pick(&[0u32, 1, 7, 8, 15, 16, 24, 31, 32, 52, 53, 62, 63, 64, 65, 127, 128]);
            let p = 2f64.powi(b as i32) + *s.pick(&[0.0, 0.0, -1.0, 1.0, -2.0, 0.5, -0.5, -1.5]);
            if s.bool() { -p } else { p }
        }
    };
    // some units in the last place away
    let k = *s.pick(&[0i64, 0, 0, 1, -1, 2, -2]);
    if base.is_finite() && base != 0.0 { f64::from_bits(base.to_bits().wrapping_add(k as u64)) } else { base }
}

fn place(mut w: W, t: T, x: f64, again: bool, s: &mut Src) -> Result<W, ReflectError> {
    if again && s.chance(1, 3) {
        // something was there before
        let v = gen_v(t, s, O);
        w = tracked(|| (t.put)(w, &v))?;
    }
    // what it says it can take, it is offered; all else it refuses
    let can = w.can_put_f64();
    if can != is_num(t) {
        return Err(ReflectError::OperationFailed { shape: t.sh(), operation: CAN });
    }
    tracked(|| w.try_put_f64(x))
}
const CAN: &str = "can_put_f64 is wrong";

fn is_num(t: T) -> bool {
    matches!(&t.k, K::Sc(Sk::UInt(..) | Sk::Int(..) | Sk::F32 | Sk::F64))
}
thread_local! {
    static NUM: Vec<T> = ROOTS.iter().map(|r| (r.ty)()).filter(|t| is_num(t)).collect();
    static HOLD: Vec<(T, Vec<usize>)> = ROOTS.iter().map(|r| (r.ty)())
        // (zero-sized siblings share an address with the slot)
        .filter(|t| t.invariant.is_none() && !matches!(&t.k, K::St(_, f) if f.iter().any(|f| f.t().size == 0)))
        .map(|t| (t, match &t.k {
            K::St(_, f) => (0..f.len()).filter(|i| is_num(f[*i].t())).collect(),
            K::List(e) | K::Opt(e) if is_num(e()) => vec![0],
            _ => vec![],
        }))
        .filter(|(_, l)| !l.is_empty()).collect();
}

fn floats(s: &mut Src, cx: &mut Ctx) -> R {
    corpus::trk::reset();
    let x = number(s);
    let how = s.below(8);
    let (root, at) = if how < 4 {
        (NUM.with(|n| n[s.below(n.len())]), None)
    } else if how < 7 {
        let (t, i) = HOLD.with(|n| {
            let (t, l) = &n[s.below(n.len())];
            (*t, l[s.below(l.len())])
        });
        (t, Some(i))
    } else {
        ((pick_root(s).ty)(), None)
    };
    let slot = match (&root.k, at) {
        (_, None) => root,
        (K::St(_, f), Some(i)) => f[i].t(),
        (K::List(e) | K::Opt(e), _) => e(),
        _ => unreachable!(),
    };
    let want = want(slot, x);
    let text = format!("{x:?} into {} (in {} {at:?})", slot.name, root.name);
    cx.sample(|| text.clone());
    cx.key(&text);
    if is_num(slot) {
        cx.nontrivial();
        cx.label(match &want { Want::Value(_) => "fits", Want::Refuse => "refused", Want::Open => "open" });
    }
    let scope = Scope::begin();
    let res = guarded(|| {
        untracked(|| -> R {
            let mut w = tracked(|| Wip::alloc_shape(root.sh()));
            let mut others: Vec<V> = vec![];
            let setup = |e: ReflectError| Fail { sig: "setup".into(), msg: format!("{text}: {e}") };
            match (&root.k, at) {
                (_, None) => {}
                (K::St(_, fs), Some(i)) => {
                    for (k, f) in fs.iter().enumerate() {
                        let v = gen_v(f.t(), s, O);
                        if k != i {
                            w = tracked(|| w.field(k)).map_err(setup)?;
                            w = tracked(|| (f.t().put)(w, &v)).map_err(setup)?;
                            w = tracked(|| w.pop()).map_err(setup)?;
                        }
                        others.push(v);
                    }
                    w = tracked(|| w.field(i)).map_err(setup)?;
                }
                (K::List(_), _) => w = tracked(|| w.push()).map_err(setup)?,
                _ => w = tracked(|| w.push_some()).map_err(setup)?,
            }
            let got = place(w, slot, x, !matches!((&root.k, at), (K::St(..), Some(_))), s);
            let w = match (&want, got) {
                (Want::Value(_) | Want::Open, Ok(w)) => w,
                (_, Err(ReflectError::OperationFailed { operation: CAN, .. })) => return fail("can-put", format!("{text}: can_put_f64 says {}", !is_num(slot))),
                (Want::Refuse | Want::Open, Err(e)) => {
                    let _ = e.to_string();
                    tracked(|| drop(e));
                    return Ok(());
                }
                (Want::Refuse, Ok(w)) => {
                    let mut w = w;
                    if at.is_some() {
                        w = tracked(|| w.pop()).map_err(setup)?;
                    }
                    let hv = tracked(|| w.build()).map_err(setup)?;
                    let got = tracked(|| (root.materialize)(hv));
                    return fail("stored-unfit", format!("{text}: out of range, but stored as {got:?}"));
                }
                (Want::Value(v), Err(e)) => return fail("refused", format!("{text}: must store {v:?}, but refused: {e}")),
            };
            let mut w = w;
            if at.is_some() {
                w = tracked(|| w.pop()).map_err(setup)?;
            }
            let hv = tracked(|| w.build()).map_err(setup)?;
            let got = tracked(|| (root.materialize)(hv));
            let Want::Value(v) = &want else { return Ok(()) };
            let full = match (&root.k, at) {
                (_, None) => v.clone(),
                (K::St(..), Some(i)) => {
                    others[i] = v.clone();
                    V::St(others)
                }
                (K::List(_), _) => V::L(vec![v.clone()]),
                _ => V::some(v.clone()),
            };
            ensure!(got.as_ref().ok() == Some(&full), "value", "{text}: stored {got:?} instead of {full:?}");
            Ok(())
        })
    });
    let rep = scope.end();
    match res {
        Ok(r) => r?,
        Err(p) => return fail(panic_sig(&p), format!("{text}: panicked: {} at {}", p.0, p.1)),
    }
    if !rep.clean() {
        return fail(format!("memory:{}", rep.kind()), format!("{text}: {rep:?}"));
    }
    Ok(())
}

pub const W05: Prop = Prop {
    id: "W05",
    targets: &[Target { name: "floats", quick: 600_000, thorough: 20_000_000, rule: "a double biased to within a few units in the last place of every numeric type's limits (and random bit patterns, infinities, NaN), stored into a numeric root, field, element or option payload, fresh or (fields excepted) over another value; or into something not numeric. Oracle: exact comparison in 128-bit integers. Non-trivial: the slot is numeric", f: floats }],
};
