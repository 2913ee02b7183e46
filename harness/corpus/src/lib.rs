//! The types the checks range over, each with a ground-truth model that never looks at facet's
//! own description of the type.
#![allow(clippy::all)]
pub mod model;
pub mod natives;
pub mod roots;
pub mod sink;
pub mod trk;
pub mod types;
pub use model::*;
pub use roots::ROOTS;
pub use trk::Trk;
pub use types::*;
pub use camino;
