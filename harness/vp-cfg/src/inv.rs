//! The W04 side of the text formats.
use crate::api::*;
use crate::{args, toml, url, yaml};
use corpus::*;
use vpcore::{Ctx, Prop, R, Src, Target, ensure};

fn having(f: fn(T) -> bool) -> Vec<usize> {
    (0..ROOTS.len()).filter(|i| { let t = (ROOTS[*i].ty)(); t.invariant.is_some() && f(t) }).collect()
}
thread_local! {
    static TOML: Vec<usize> = having(|t| toml::root(t) && toml::plain_defaults(t));
    static YAML: Vec<usize> = having(yaml::supported);
    static URL: Vec<usize> = having(|t| url::supported(t) && url::spellable(t));
    static ARGS: Vec<usize> = having(args::fits);
}
const O: Opt = Opt { finite: true, max_elems: 3, depth: 4, str_max: 10 };

fn check(t: T, v: &V, x: &str, got: Result<V, String>, cx: &mut Ctx) -> R {
    let holds = t.invariant.unwrap()(v);
    cx.label(&format!("{}:{holds}", t.name));
    cx.sample(|| format!("{}: {x}", t.name));
    cx.key(&format!("{}{x}", t.name));
    cx.nontrivial();
    match got {
        Ok(g) => {
            ensure!(holds, "unheld", "{} from {:?}: the invariant does not hold, but it gave {}", t.name, cut(x, 600), short(&g));
            if all_hold(t, v) {
                ensure!(g.canon_nan() == v.canon_nan(), "wrong-value", "{} from {:?}: gave {}, means {}", t.name, cut(x, 600), short(&g), short(v));
            }
        }
        // whether a part's own invariant is asked for is not settled
        Err(e) => ensure!(!all_hold(t, v), "refused", "{} from {:?}: every invariant holds for {}, refused: {}", t.name, cut(x, 600), short(v), cut(&e, 300)),
    }
    Ok(())
}

fn from_toml(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&TOML, s);
    let t = (ROOTS[r].ty)();
    let v = near_invariant(t, s, O).0;
    let v = toml::tame(t, v, s);
    let Some(d @ toml::Tv::Tab(_)) = toml::doc_of(t, &v, s) else {
        cx.label("no-document");
        return Ok(());
    };
    let x = toml::write(&d, s);
    let got = tracked(t, APIS[r].toml, &x)?;
    check(t, &v, &x, got, cx)
}
fn from_yaml(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&YAML, s);
    let t = (ROOTS[r].ty)();
    let v = near_invariant(t, s, O).0;
    let d = yaml::doc_of(t, &v);
    let x = yaml::write(&d, s);
    // a comment line can end up inside a block scalar
    if !yaml::read(&x).is_ok_and(|y| y.len() == 1 && yaml::agrees(&d, &y[0])) {
        cx.label("set-aside");
        return Ok(());
    }
    let got = tracked(t, APIS[r].yaml, &x)?;
    check(t, &v, &x, got, cx)
}
fn from_url(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&URL, s);
    let t = (ROOTS[r].ty)();
    let v = near_invariant(t, s, O).0;
    let mut ps = vec![];
    url::pairs_of(t, &v, &[], &mut ps);
    s.shuffle(&mut ps);
    let x = url::write(&ps, s);
    let got = tracked(t, APIS[r].url, &x)?;
    check(t, &v, &x, got, cx)
}
fn from_args(s: &mut Src, cx: &mut Ctx) -> R {
    let r = pick(&ARGS, s);
    let t = (ROOTS[r].ty)();
    let v = near_invariant(t, s, O).0;
    let (v, a) = args::make_from(t, v, s);
    let w = args::words(&args::interleave(&a, s));
    let got = args::run(r, &w).map_err(|p| format!("{} at {}", p.0, p.1));
    check(t, &v, &format!("{w:?}"), got, cx)
}

pub const W04: Prop = Prop {
    id: "W04",
    targets: &[
        Target { name: "toml", quick: 25_000, thorough: 1_000_000, rule: "TOML of a value of a type with invariants, about half of them breaking it, decoded: refused iff the root type's invariant (called natively) does not hold. Every document counts", f: from_toml },
        Target { name: "yaml", quick: 25_000, thorough: 1_000_000, rule: "the same for YAML. Every case counts", f: from_yaml },
        Target { name: "urlencoded", quick: 25_000, thorough: 1_000_000, rule: "the same for URL-encoded forms. Every case counts", f: from_url },
        Target { name: "args", quick: 25_000, thorough: 1_000_000, rule: "the same for command lines. Every case counts", f: from_args },
    ],
};
