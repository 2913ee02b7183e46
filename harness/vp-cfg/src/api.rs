//! The entry points, for every root type.
use corpus::natives::Root;
use corpus::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::sync::Arc;
use vpcore::alloc::{Scope, untracked};
use vpcore::{Fail, Src, fail};

pub type De = fn(&str) -> Result<V, String>;
pub struct Api {
    pub toml: De,
    pub yaml: De,
    pub url: De,
    pub args: fn(&[&str]) -> V,
}
/// Rendering an error must never fail.
fn text<E: Display + Debug>(e: E) -> String {
    let (a, b) = (e.to_string(), format!("{e:?}"));
    drop(e);
    untracked(|| format!("{a}|{b}"))
}
fn done<X: Gt, E: Display + Debug>(r: Result<X, E>) -> Result<V, String> {
    match r {
        Ok(x) => Ok(untracked(|| x.to_v())),
        Err(e) => Err(text(e)),
    }
}
macro_rules! apis {
    ($([$($t:tt)*])*) => {
        pub static APIS: &[Api] = &[$(Api {
            toml: |s| done(facet_toml::from_str::<$($t)*>(s)),
            yaml: |s| done(facet_yaml::from_str::<$($t)*>(s)),
            url: |s| done(facet_urlencoded::from_str::<$($t)*>(s)),
            args: |s| {
                let x = facet_args::from_slice::<$($t)*>(s);
                untracked(|| x.to_v())
            },
        }),*];
    };
}
with_roots!(apis);

#[derive(Debug)]
pub enum Out {
    /// has to give this value
    Must(V),
    /// gives this value or an error
    May(V),
    Err(&'static str),
    /// nothing promised but that it does not blow up
    Any,
}

pub fn cut(x: &str, n: usize) -> String {
    let mut k = x.len().min(n);
    while !x.is_char_boundary(k) {
        k -= 1;
    }
    if k < x.len() { format!("{}... ({} bytes)", &x[..k], x.len()) } else { x.to_string() }
}
pub fn short(v: &V) -> String {
    cut(&format!("{v:?}"), 500)
}
pub fn all(t: T, f: &dyn Fn(T) -> bool) -> bool {
    !t.any(&mut |t| !f(t))
}
/// A root satisfying `f`, compound ones more often.
pub fn pick(k: &'static std::thread::LocalKey<Vec<usize>>, s: &mut Src) -> usize {
    k.with(|v| v[s.below(v.len())])
}

/// Decodes under the tracking allocator.
pub fn tracked(t: T, de: De, x: &str) -> Result<Result<V, String>, Fail> {
    let sc = Scope::begin();
    let out = de(x);
    let rep = sc.end();
    if !rep.clean() {
        return fail(format!("memory:{}", rep.kind()), format!("decoding {} from {:?}: allocator saw {rep:?}", t.name, cut(x, 600)));
    }
    if rep.bytes > (8 << 20) + 4000 * x.len() {
        return fail("runaway", format!("decoding {} from {:?}: {} bytes allocated", t.name, cut(x, 600), rep.bytes));
    }
    Ok(out)
}
#[allow(unused)]
fn _unused(_: Arc<u8>, _: HashMap<u8, u8>, _: BTreeMap<u8, u8>, _: Cow<str>, _: &Root) {}
