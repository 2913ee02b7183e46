//! A value whose drops are counted and whose memory is checked on drop.
use facet_core::{ConstTypeId, Def, Facet, ScalarAffinity, ScalarDef, Shape, value_vtable};
use std::cell::Cell;

const MAGIC: u64 = 0x5afe_c0de_1234_9876;
const DEAD: u64 = 0xdead_dead_dead_dead;

pub struct Trk {
    magic: u64,
    cell: Box<u64>,
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BAD: Cell<Option<&'static str>> = const { Cell::new(None) };
    static FUSE: Cell<u32> = const { Cell::new(0) };
}

/// What a value's own code panics with.
pub const BLOWN: &str = "the value's own code panics here";
/// The n-th call of a tracked value's own code from now on panics (0: none does).
pub fn arm(n: u32) {
    FUSE.with(|f| f.set(n));
}
/// How many calls were left.
pub fn disarm() -> u32 {
    FUSE.with(|f| f.replace(0))
}
fn tick() {
    let n = FUSE.with(|f| f.get());
    if n > 0 {
        FUSE.with(|f| f.set(n - 1));
        if n == 1 {
            panic!("{BLOWN}");
        }
    }
}

/// Forget everything counted so far.
pub fn reset() {
    disarm();
    LIVE.with(|l| l.set(0));
    BAD.with(|b| b.set(None));
}
/// Whatever is still alive will not be missed.
pub fn all_gone() {
    LIVE.with(|l| l.set(l.get().min(0)));
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn bad() -> Option<&'static str> {
    BAD.with(|b| b.get())
}

impl Trk {
    pub fn new(v: u64) -> Trk {
        LIVE.with(|l| l.set(l.get() + 1));
        Trk { magic: MAGIC, cell: Box::new(v) }
    }
    pub fn val(&self) -> u64 {
        if self.magic != MAGIC {
            BAD.with(|b| b.set(Some("read of a tracked value that is not alive")));
            return u64::MAX;
        }
        *self.cell
    }
}
impl Drop for Trk {
    fn drop(&mut self) {
        if self.magic == DEAD || self.magic == 0xdddd_dddd_dddd_dddd {
            BAD.with(|b| b.set(Some("tracked value dropped twice")));
            panic!("tracked value dropped twice");
        }
        if self.magic != MAGIC {
            BAD.with(|b| b.set(Some("drop of memory that holds no tracked value")));
            panic!("drop of memory that holds no tracked value");
        }
        self.magic = DEAD;
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Clone for Trk {
    fn clone(&self) -> Self {
        tick();
        Trk::new(self.val())
    }
}
impl Default for Trk {
    fn default() -> Self {
        tick();
        Trk::new(7)
    }
}
impl PartialEq for Trk {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.val() == o.val()
    }
}
impl Eq for Trk {}
impl PartialOrd for Trk {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Trk {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        tick();
        self.val().cmp(&o.val())
    }
}
impl std::hash::Hash for Trk {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        tick();
        self.val().hash(h)
    }
}
impl std::fmt::Debug for Trk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Trk({})", self.val())
    }
}
impl std::fmt::Display for Trk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "trk#{}", self.val())
    }
}
impl std::str::FromStr for Trk {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        tick();
        Ok(Trk::new(s.strip_prefix("trk#").unwrap_or(s).parse().map_err(|_| ())?))
    }
}
unsafe impl Facet for Trk {
    const SHAPE: &'static Shape = &const {
        Shape::builder()
            .id(ConstTypeId::of::<Self>())
            .layout(std::alloc::Layout::new::<Self>())
            .def(Def::Scalar(ScalarDef::builder().affinity(ScalarAffinity::opaque().build()).build()))
            .vtable(value_vtable!(Trk, |f, _opts| write!(f, "Trk")))
            .build()
    };
}
