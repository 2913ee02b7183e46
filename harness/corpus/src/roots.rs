use crate::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

macro_rules! table {
    ($([$($t:tt)*])*) => {
        /// Every root type with its own trait implementations.
        pub static ROOTS: &[natives::Root] = &[$(crate::root!($($t)*)),*];
    };
}
crate::with_roots!(table);
