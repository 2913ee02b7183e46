//! Markers (`Send`, `Sync`, `Copy`, `Eq`, `Unpin`) of parts that lack some of them, alone and inside every
//! kind of container the library knows: what a shape claims against what the compiler finds.
use crate::common::*;
use facet::Facet;
use facet_core::Opaque;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::marker::{PhantomData as Ph, PhantomPinned};
use std::ptr::NonNull;
use std::sync::{Arc, MutexGuard, Weak};

macro_rules! has {
    ($X:ty, $Tr:path) => {{
        #[allow(dead_code)]
        trait Fallback {
            fn get(&self) -> bool {
                false
            }
        }
        struct Probe<Q>(Ph<Q>);
        impl<Q> Fallback for Probe<Q> {}
        impl<Q: $Tr> Probe<Q> {
            #[allow(dead_code)]
            fn get(&self) -> bool {
                true
            }
        }
        Probe::<$X>(Ph).get()
    }};
}

// what a part may lack, one by one; all of them comparable and hashable, so that they can be keys
macro_rules! part {
    ($N:ident, $P:ty, $($d:ident),*) => {
        #[derive(Facet, PartialEq, PartialOrd, Hash, $($d),*)]
        pub struct $N {
            a: u8,
            p: Ph<$P>,
        }
        impl std::hash::BuildHasher for $N {
            type Hasher = std::collections::hash_map::DefaultHasher;
            fn build_hasher(&self) -> Self::Hasher {
                Default::default()
            }
        }
    };
}
part!(All, u8, Eq, Ord, Clone, Copy, Default);
part!(NoSync, Cell<u8>, Eq, Ord, Clone, Copy, Default);
part!(NoSend, MutexGuard<'static, u8>, Clone, Default);
part!(Neither, *const u8, Eq, Ord, Clone, Copy, Default);
part!(Pinned, PhantomPinned, Eq, Ord, Clone, Copy, Default);
part!(NoCopy, u8, Eq, Ord, Clone, Default);
part!(NoEq, u8, Clone, Copy, Default);
part!(NoClone, u8, Eq, Ord, Default);
part!(Worst, (*const u8, PhantomPinned), Default);

// the same parts as fields of derived types
macro_rules! holders {
    ($($m:ident $N:ident;)*) => {
        $(pub mod $m {
            use super::*;
            #[derive(Facet)]
            pub struct Named { _x: String, _y: $N }
            #[derive(Facet)]
            pub struct Positional($N, u32);
            #[derive(Facet)]
            #[repr(u8)]
            #[allow(dead_code)]
            pub enum Choice { A, B(u8, $N), C { k: $N } }
            #[derive(Facet)]
            pub struct Deep { _d: Option<Vec<Named>> }
        })*
    };
}
holders! { all All; nosync NoSync; nosend NoSend; neither Neither; pinned Pinned; nocopy NoCopy; noeq NoEq; noclone NoClone; worst Worst; }
#[derive(Facet)]
pub struct Gen<X> {
    _x: X,
    _n: u8,
}

pub struct Row {
    name: &'static str,
    shape: &'static Shape,
    has: [bool; 14],
    /// not generic over the part: what it implements must be offered
    exact: bool,
}
macro_rules! rows {
    ($v:ident, $e:expr; $($X:ty),* $(,)?) => {
        $($v.push(Row {
            name: stringify!($X),
            shape: <$X as Facet>::SHAPE,
            has: [has!($X, Send), has!($X, Sync), has!($X, Copy), has!($X, Eq), has!($X, Unpin), has!($X, Clone), has!($X, std::fmt::Debug), has!($X, std::fmt::Display), has!($X, Default), has!($X, PartialEq), has!($X, PartialOrd), has!($X, Ord), has!($X, std::hash::Hash), has!($X, std::str::FromStr)],
            exact: $e,
        });)*
    };
}
macro_rules! around {
    ($v:ident; $($m:ident $N:ident),*) => {
        $(
            rows!($v, true; $N, $m::Named, $m::Positional, $m::Choice, $m::Deep);
            rows!($v, false;
                Gen<$N>, Vec<$N>, [$N; 0], [$N; 1], [$N; 5], &'static [$N], Option<$N>, Arc<$N>, Weak<$N>, NonNull<$N>,
                Ph<$N>, Opaque<Arc<$N>>, BTreeMap<String, $N>, HashMap<String, $N>,
                HashMap<u8, u8, $N>, HashMap<u8, $N, $N>,
                ($N,), ($N, u8), (u8, $N), ($N, u8, u8), (u8, $N, u8), (u8, u8, $N),
                ($N, u8, u8, u8), (u8, u8, $N, u8), (u8, $N, u8, u8), (u8, u8, u8, $N),
                ($N, u8, u8, u8, u8), (u8, $N, u8, u8, u8), (u8, u8, $N, u8, u8), (u8, u8, u8, $N, u8), (u8, u8, u8, u8, $N),
                (u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, $N, u8), (u8, u8, u8, $N, u8, u8), (u8, u8, $N, u8, u8, u8), (u8, $N, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8),
                (u8, u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, u8, $N, u8), (u8, u8, u8, u8, $N, u8, u8), (u8, u8, u8, $N, u8, u8, u8), (u8, u8, $N, u8, u8, u8, u8), (u8, $N, u8, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8, u8),
                (u8, u8, u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, u8, u8, $N, u8), (u8, u8, u8, u8, u8, $N, u8, u8), (u8, u8, u8, u8, $N, u8, u8, u8), (u8, u8, u8, $N, u8, u8, u8, u8), (u8, u8, $N, u8, u8, u8, u8, u8), (u8, $N, u8, u8, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8, u8, u8),
                (u8, u8, u8, u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, u8, u8, u8, $N, u8), (u8, u8, u8, u8, u8, u8, $N, u8, u8), (u8, u8, u8, u8, u8, $N, u8, u8, u8), (u8, u8, u8, u8, $N, u8, u8, u8, u8), (u8, u8, u8, $N, u8, u8, u8, u8, u8), (u8, u8, $N, u8, u8, u8, u8, u8, u8), (u8, $N, u8, u8, u8, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8, u8, u8, u8),
                (u8, u8, u8, u8, u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, u8, u8, u8, u8, $N, u8), (u8, u8, u8, u8, u8, u8, u8, $N, u8, u8), (u8, u8, u8, u8, u8, u8, $N, u8, u8, u8), (u8, u8, u8, u8, u8, $N, u8, u8, u8, u8), (u8, u8, u8, u8, $N, u8, u8, u8, u8, u8), (u8, u8, u8, $N, u8, u8, u8, u8, u8, u8), (u8, u8, $N, u8, u8, u8, u8, u8, u8, u8), (u8, $N, u8, u8, u8, u8, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8, u8, u8, u8, u8),
                (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, u8, u8, u8, u8, u8, $N, u8), (u8, u8, u8, u8, u8, u8, u8, u8, $N, u8, u8), (u8, u8, u8, u8, u8, u8, u8, $N, u8, u8, u8), (u8, u8, u8, u8, u8, u8, $N, u8, u8, u8, u8), (u8, u8, u8, u8, u8, $N, u8, u8, u8, u8, u8), (u8, u8, u8, u8, $N, u8, u8, u8, u8, u8, u8), (u8, u8, u8, $N, u8, u8, u8, u8, u8, u8, u8), (u8, u8, $N, u8, u8, u8, u8, u8, u8, u8, u8), (u8, $N, u8, u8, u8, u8, u8, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
                (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, $N), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, $N, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, $N, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, $N, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, $N, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, $N, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, $N, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, $N, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, $N, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, $N, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, $N, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), ($N, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
                // two steps away
                Vec<Option<$N>>, Option<Arc<$N>>, Arc<Vec<$N>>, &'static [Option<$N>], [Vec<$N>; 2], Option<&'static [$N]>, (Arc<$N>, &'static [$N]), Vec<Arc<[$N; 2]>>,
                Option<HashMap<u8, u8, $N>>, Gen<HashMap<u8, u8, $N>>, Vec<($N, f64)>, Option<Box1<$N>>,
            );
        )*
    };
}
#[derive(Facet)]
pub struct Box1<X>(X);

pub fn table() -> Vec<Row> {
    let mut v = Vec::new();
    around!(v; all All, nosync NoSync, nosend NoSend, neither Neither, pinned Pinned, nocopy NoCopy, noeq NoEq, noclone NoClone, worst Worst);
    // parts that can be keys
    macro_rules! keys { ($($N:ident),*) => { $(rows!(v, false; BTreeMap<$N, u8>, BTreeMap<$N, $N>, HashMap<$N, u8>, HashMap<$N, $N>, HashMap<$N, String, $N>, Vec<HashMap<$N, u8>>, Option<BTreeMap<$N, u8>>);)* } }
    keys!(All, NoSync, Neither, Pinned, NoCopy, NoClone);
    v
}

const NAMES: [&str; 14] = ["Send", "Sync", "Copy", "Eq", "Unpin", "Clone", "Debug", "Display", "Default", "PartialEq", "PartialOrd", "Ord", "Hash", "FromStr"];

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    static TABLE: std::sync::OnceLock<Vec<Row>> = std::sync::OnceLock::new();
    let rows = TABLE.get_or_init(table);
    let r = &rows[s.below(rows.len())];
    let vt = r.shape.vtable;
    let says = [r.shape.is_send(), r.shape.is_sync(), r.shape.is_copy(), r.shape.is_eq(), r.shape.is(Characteristic::Unpin), vt.clone_into.is_some(), vt.debug.is_some(), vt.display.is_some(), vt.default_in_place.is_some(), vt.eq.is_some(), vt.partial_ord.is_some(), vt.ord.is_some(), vt.hash.is_some(), vt.parse.is_some()];
    ensure!(says[5..] == [r.shape.is_clone(), r.shape.is_debug(), r.shape.is_display(), r.shape.is_default(), r.shape.is_partial_eq(), r.shape.is_partial_ord(), r.shape.is_ord(), r.shape.is_hash(), r.shape.is_from_str()], "questions", "{}: what the shape answers is not what its table has", r.name);
    cx.key(r.name);
    cx.sample(|| format!("{}: the type has {:?}, its shape says {says:?}", r.name, r.has));
    if r.has.iter().any(|h| !h) {
        cx.nontrivial();
    }
    for i in 0..NAMES.len() {
        let (m, has, says) = (NAMES[i], r.has[i], says[i]);
        cx.label(&format!("{m}:{}", if has { "has" } else { "lacks" }));
        // a hash map offers hashing (of its entries) and an opaque handle the clone of its inner one on
        // purpose; only the markers of those are compared
        let on_purpose = i >= 5 && (r.name.contains("HashMap") || r.name.contains("Opaque"));
        ensure!(has || !says || on_purpose, format!("claimed:{m}"), "{}: the shape says {m}, the type is not {m}", r.name);
        ensure!(!r.exact || says || !has, format!("not-claimed:{m}"), "{}: the type is {m}, its shape does not say so", r.name);
    }
    Ok(())
}
