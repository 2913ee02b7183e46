//! The type's own trait implementations, as the compiler finds them (inherent-before-trait probing
//! on concrete types), independent of facet's own probing.
use crate::model::*;
use std::cmp::Ordering;

/// What a hasher was fed.
#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct RecHasher(pub Vec<u8>);
impl std::hash::Hasher for RecHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

pub struct Natives {
    pub display: Option<fn(&V, &Style) -> String>,
    pub debug: Option<fn(&V, &Style) -> String>,
    pub default: Option<fn() -> V>,
    pub clone: bool,
    pub eq: Option<fn(&V, &V) -> bool>,
    pub partial_cmp: Option<fn(&V, &V) -> Option<Ordering>>,
    pub cmp: Option<fn(&V, &V) -> Ordering>,
    pub hash: Option<fn(&V) -> Vec<u8>>,
    pub parse: Option<fn(&str) -> Option<V>>,
    pub m_eq: bool,
    pub m_send: bool,
    pub m_sync: bool,
    pub m_copy: bool,
    pub m_unpin: bool,
}

pub struct Style(pub u8);
impl Style {
    pub fn render<D: std::fmt::Display>(&self, d: D) -> String {
        match self.0 {
            0 => format!("{d}"),
            1 => format!("{d:#}"),
            2 => format!("{d:8.2}"),
            3 => format!("{d:>+12}"),
            _ => format!("{d:03}"),
        }
    }
    pub fn render_dbg<D: std::fmt::Debug>(&self, d: D) -> String {
        match self.0 {
            0 => format!("{d:?}"),
            1 => format!("{d:#?}"),
            2 => format!("{d:8.2?}"),
            3 => format!("{d:>+12?}"),
            _ => format!("{d:#x?}"),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Root {
    pub name: &'static str,
    pub ty: TF,
    pub natives: fn() -> Natives,
}

#[macro_export]
macro_rules! probe_fn {
    ($X:ty, $Tr:path, |$Q:ident| $Out:ty, $some:expr) => {{
        #[allow(dead_code)]
        trait Fallback {
            fn get(&self) -> Option<$Out> {
                None
            }
        }
        struct Probe<Q>(std::marker::PhantomData<Q>);
        impl<Q> Fallback for Probe<Q> {}
        impl<$Q: $Tr + $crate::Gt> Probe<$Q> {
            #[allow(dead_code)]
            fn get(&self) -> Option<$Out> {
                Some($some)
            }
        }
        Probe::<$X>(std::marker::PhantomData).get()
    }};
}

#[macro_export]
macro_rules! root {
    ($X:ty) => {
        $crate::natives::Root {
            name: stringify!($X),
            ty: $crate::ty::<$X>,
            natives: || $crate::natives::Natives {
                display: $crate::probe_fn!($X, std::fmt::Display, |Q| fn(&$crate::V, &$crate::natives::Style) -> String, |v, s| s.render(Q::from_v(v))),
                debug: $crate::probe_fn!($X, std::fmt::Debug, |Q| fn(&$crate::V, &$crate::natives::Style) -> String, |v, s| s.render_dbg(Q::from_v(v))),
                default: $crate::probe_fn!($X, std::default::Default, |Q| fn() -> $crate::V, || Q::default().to_v()),
                clone: $crate::probe_fn!($X, std::clone::Clone, |Q| (), ()).is_some(),
                eq: $crate::probe_fn!($X, std::cmp::PartialEq, |Q| fn(&$crate::V, &$crate::V) -> bool, |a, b| Q::from_v(a) == Q::from_v(b)),
                partial_cmp: $crate::probe_fn!($X, std::cmp::PartialOrd, |Q| fn(&$crate::V, &$crate::V) -> Option<std::cmp::Ordering>, |a, b| Q::from_v(a).partial_cmp(&Q::from_v(b))),
                cmp: $crate::probe_fn!($X, std::cmp::Ord, |Q| fn(&$crate::V, &$crate::V) -> std::cmp::Ordering, |a, b| Q::from_v(a).cmp(&Q::from_v(b))),
                hash: $crate::probe_fn!($X, std::hash::Hash, |Q| fn(&$crate::V) -> Vec<u8>, |v| {
                    let mut h = $crate::natives::RecHasher::default();
                    Q::from_v(v).hash(&mut h);
                    h.0
                }),
                parse: $crate::probe_fn!($X, std::str::FromStr, |Q| fn(&str) -> Option<$crate::V>, |s| s.parse::<Q>().ok().map(|x| x.to_v())),
                m_eq: $crate::probe_fn!($X, std::cmp::Eq, |Q| (), ()).is_some(),
                m_send: $crate::probe_fn!($X, std::marker::Send, |Q| (), ()).is_some(),
                m_sync: $crate::probe_fn!($X, std::marker::Sync, |Q| (), ()).is_some(),
                m_copy: $crate::probe_fn!($X, std::marker::Copy, |Q| (), ()).is_some(),
                m_unpin: $crate::probe_fn!($X, std::marker::Unpin, |Q| (), ()).is_some(),
            },
        }
    };
}
