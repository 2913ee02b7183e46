pub mod alloc;
pub mod run;
pub mod src;
pub use run::*;
pub use src::Src;

#[cfg(not(feature = "noalloc"))]
#[global_allocator]
static GLOBAL: alloc::Tracker = alloc::Tracker;
