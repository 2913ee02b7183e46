//! Tracking allocator. Outside a scope it is the system allocator. Inside a scope (one thread)
//! every block is recorded; frees are checked (live? same layout?), poisoned and quarantined until
//! the scope ends, so double frees, wrong layouts, leaks and writes after free are all decided
//! deterministically, and reads after free or of never-written memory yield recognisable patterns.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracker;

const CAP: usize = 1 << 17;
const FILL_NEW: u8 = 0xA5;
const FILL_FREE: u8 = 0xDD;
/// Per-scope cap on bytes: beyond it the allocation fails (and the process aborts).
const MAX_BYTES: usize = 1 << 30;

#[derive(Clone, Copy)]
struct Ent {
    addr: usize,
    size: usize,
    align: usize,
    serial: usize,
    live: bool,
}
const EMPTY: Ent = Ent { addr: 0, size: 0, align: 0, serial: 0, live: false };

struct Table {
    ents: [Ent; CAP],
    used: [u32; CAP],
    nused: usize,
    serial: usize,
    bytes: usize,
    double_free: usize,
    bad_layout: usize,
    zero_size: usize,
    first: [usize; 4], // kind, size, align, serial of the first error
    overflow: bool,
}

static mut TABLE: Table = Table {
    ents: [EMPTY; CAP],
    used: [0; CAP],
    nused: 0,
    serial: 0,
    bytes: 0,
    double_free: 0,
    bad_layout: 0,
    zero_size: 0,
    first: [0; 4],
    overflow: false,
};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static IN_SCOPE: Cell<bool> = const { Cell::new(false) };
}

fn slot_of(addr: usize) -> usize {
    (addr.wrapping_mul(0x9e3779b97f4a7c15) >> 40) & (CAP - 1)
}

#[allow(static_mut_refs)]
fn table() -> &'static mut Table {
    // only the single thread that owns the scope gets here
    unsafe { &mut *std::ptr::addr_of_mut!(TABLE) }
}

fn find(t: &Table, addr: usize) -> Option<usize> {
    let mut i = slot_of(addr);
    for _ in 0..CAP {
        if t.ents[i].addr == 0 {
            return None;
        }
        if t.ents[i].addr == addr {
            return Some(i);
        }
        i = (i + 1) & (CAP - 1);
    }
    None
}

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let active = ACTIVE.try_with(|a| a.get()).unwrap_or(false);
        if !active {
            return unsafe { System.alloc(l) };
        }
        let t = table();
        if l.size() == 0 {
            t.zero_size += 1;
        }
        if t.bytes + l.size() > MAX_BYTES {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if p.is_null() {
            return p;
        }
        unsafe { std::ptr::write_bytes(p, FILL_NEW, l.size().min(1 << 16)) };
        if t.nused >= CAP / 2 {
            t.overflow = true;
            return p;
        }
        t.bytes += l.size();
        t.serial += 1;
        let mut i = slot_of(p as usize);
        while t.ents[i].addr != 0 && t.ents[i].addr != p as usize {
            i = (i + 1) & (CAP - 1);
        }
        if t.ents[i].addr == 0 {
            t.used[t.nused] = i as u32;
            t.nused += 1;
        }
        t.ents[i] = Ent { addr: p as usize, size: l.size(), align: l.align(), serial: t.serial, live: true };
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let in_scope = IN_SCOPE.try_with(|a| a.get()).unwrap_or(false);
        if !in_scope {
            unsafe { System.dealloc(p, l) };
            return;
        }
        let t = table();
        match find(t, p as usize) {
            Some(i) => {
                let e = t.ents[i];
                if !e.live {
                    t.double_free += 1;
                    if t.first[0] == 0 {
                        t.first = [1, e.size, e.align, e.serial];
                    }
                    return;
                }
                if e.size != l.size() || e.align != l.align() {
                    t.bad_layout += 1;
                    if t.first[0] == 0 {
                        t.first = [2, e.size, l.size(), e.serial];
                    }
                }
                t.ents[i].live = false;
                unsafe { std::ptr::write_bytes(p, FILL_FREE, e.size) };
            }
            None => {
                // allocated before the scope (or while tracking was paused)
                unsafe { System.dealloc(p, l) };
            }
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Report {
    pub leaked: usize,
    pub leaked_bytes: usize,
    pub leak_sizes: [usize; 4],
    pub double_free: usize,
    pub bad_layout: usize,
    pub write_after_free: usize,
    pub blocks: usize,
    /// everything ever allocated in the scope
    pub bytes: usize,
    pub overflow: bool,
}

impl Report {
    pub fn clean(&self) -> bool {
        self.overflow
            || (self.leaked == 0 && self.double_free == 0 && self.bad_layout == 0 && self.write_after_free == 0)
    }
    pub fn kind(&self) -> &'static str {
        if self.double_free > 0 {
            "double-free"
        } else if self.bad_layout > 0 {
            "bad-layout"
        } else if self.write_after_free > 0 {
            "write-after-free"
        } else if self.leaked > 0 {
            "leak"
        } else {
            "clean"
        }
    }
}

pub struct Scope(());

impl Scope {
    pub fn begin() -> Scope {
        let t = table();
        t.nused = 0;
        t.serial = 0;
        t.bytes = 0;
        t.double_free = 0;
        t.bad_layout = 0;
        t.first = [0; 4];
        t.overflow = false;
        IN_SCOPE.with(|a| a.set(true));
        ACTIVE.with(|a| a.set(true));
        Scope(())
    }
    pub fn end(self) -> Report {
        ACTIVE.with(|a| a.set(false));
        IN_SCOPE.with(|a| a.set(false));
        let t = table();
        let mut r = Report { double_free: t.double_free, bad_layout: t.bad_layout, overflow: t.overflow, blocks: t.nused, bytes: t.bytes, ..Default::default() };
        for k in 0..t.nused {
            let i = t.used[k] as usize;
            let e = t.ents[i];
            if e.live {
                if r.leaked < 4 {
                    r.leak_sizes[r.leaked] = e.size;
                }
                r.leaked += 1;
                r.leaked_bytes += e.size;
                // leaked blocks are left alone: something may still point to them
            } else {
                let s = unsafe { std::slice::from_raw_parts(e.addr as *const u8, e.size) };
                if s.iter().any(|b| *b != FILL_FREE) {
                    r.write_after_free += 1;
                }
                unsafe { System.dealloc(e.addr as *mut u8, Layout::from_size_align_unchecked(e.size, e.align)) };
            }
            t.ents[i] = EMPTY;
        }
        t.nused = 0;
        std::mem::forget(self);
        r
    }
}

impl Drop for Scope {
    fn drop(&mut self) {
        // unwinding out of a scope
        let s = Scope(());
        let _ = s.end();
    }
}

/// Run `f` without recording its allocations (they must not be freed inside the scope with other
/// code's layouts; plain Rust values are fine either way).
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = f();
    ACTIVE.with(|a| a.set(was));
    r
}

/// The opposite: record again, within `untracked`.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let on = IN_SCOPE.with(|a| a.get());
    let was = ACTIVE.with(|a| a.replace(on));
    let r = f();
    ACTIVE.with(|a| a.set(was));
    r
}
