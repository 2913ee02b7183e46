//! Worker side of the checks: runs generated cases of one target, shrinks failures, writes results.
use crate::src::{Src, hash_str, mix};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($m:tt)*) => {
        if !($c) { return $crate::fail($sig, format!($($m)*)); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub key: Option<u64>,
    pub labels: BTreeMap<String, u64>,
    sample: Option<String>,
    want_sample: bool,
    pub verbose: bool,
    known: HashSet<String>,
    pub known_hit: Vec<String>,
}

impl Ctx {
    /// This case is non-trivial by the target's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &str) {
        crate::alloc::untracked(|| *self.labels.entry(l.to_string()).or_insert(0) += 1);
    }
    pub fn key(&mut self, s: &str) {
        self.key = Some(hash_str(s));
    }
    /// Describe the case (only rendered when wanted).
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample || self.verbose {
            crate::alloc::untracked(|| {
                let mut s = f();
                if s.len() > 1500 {
                    let mut k = 1500;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push('…');
                }
                if self.verbose {
                    println!("case: {s}");
                }
                self.sample = Some(s);
            })
        }
    }
}

pub struct Target {
    pub name: &'static str,
    /// cases in the quick tier / thorough tier (all shards together)
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub f: fn(&mut Src, &mut Ctx) -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub targets: &'static [Target],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::untracked(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".to_string()
            };
            let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
            let line = info.location().map(|l| l.line()).unwrap_or(0);
            if std::env::var_os("VP_VERBOSE").is_some() {
                eprintln!("panic: {msg} at {file}:{line}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, format!("{file}:{line}"))));
        })
    }));
}

fn normalize(msg: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars().take(160) {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('N');
            }
            last_digit = true;
        } else {
            last_digit = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}

/// Run code under test, turning a panic into its message and location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            crate::alloc::untracked(|| drop(p));
            Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
        }
    }
}

pub fn panic_sig(p: &(String, String)) -> String {
    let file = p.1.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
    format!("panic@{}:{}", file, normalize(&p.0))
}

fn run_one(t: &Target, src: &mut Src, ctx: &mut Ctx) -> R {
    match guarded(|| (t.f)(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail { sig: panic_sig(&p), msg: format!("panicked: {} at {}", p.0, p.1) }),
    }
}

pub fn case_seed(seed: u64, id: &str, target: &str, shard: u64, idx: u64) -> u64 {
    mix(&[seed, hash_str(id), hash_str(target), shard, idx])
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink(t: &Target, start: Vec<u64>, f0: Fail) -> (Vec<u64>, Fail, u64) {
    let mut best = start;
    let mut bestf = f0;
    let mut runs = 0u64;
    let t0 = std::time::Instant::now();
    let max_runs = 6000u64;
    let try_c = |c: Vec<u64>, best: &mut Vec<u64>, bestf: &mut Fail, runs: &mut u64| -> bool {
        *runs += 1;
        let mut src = Src::replay(c);
        let mut ctx = Ctx::default();
        if let Err(f) = run_one(t, &mut src, &mut ctx) {
            if f.sig == bestf.sig {
                let rec = src.record;
                // strictly simpler only
                if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                    *best = rec;
                    *bestf = f;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if runs > max_runs || t0.elapsed().as_secs() > 25 {
                    return (best, bestf, runs);
                }
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !try_c(c, &mut best, &mut bestf, &mut runs) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if runs > max_runs || t0.elapsed().as_secs() > 25 {
                return (best, bestf, runs);
            }
            if best[i] != 0 {
                let v = best[i];
                for nv in [0, v / 2, v.saturating_sub(1)] {
                    if nv < v {
                        let mut c = best.clone();
                        c[i] = nv;
                        if try_c(c, &mut best, &mut bestf, &mut runs) {
                            break;
                        }
                    }
                }
                if i < best.len() && best[i] != v && best[i] != 0 {
                    continue;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, bestf, runs);
        }
    }
}

struct FailRec {
    sig: String,
    msg: String,
    choices: Vec<u64>,
    idx: u64,
    shrink_runs: u64,
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Prop, t: &Target, shard: u64, cases: u64, seed: u64, out: &str, start: u64, known: HashSet<String>) {
    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<FailRec> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let prog = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(format!("{out}.idx")).unwrap();
    use std::os::unix::fs::FileExt;
    let mut idx = start;
    while idx < cases {
        let _ = prog.write_at(&idx.to_le_bytes(), 0);
        PROGRESS.store(idx + 1, Ordering::Relaxed);
        let mut src = Src::random(case_seed(seed, p.id, t.name, shard, idx));
        let mut ctx = Ctx { want_sample: samples.len() < 2 || (idx.is_power_of_two() && samples.len() < 6), ..Default::default() };
        ctx.known = known.clone();
        let r = run_one(t, &mut src, &mut ctx);
        evaluations += 1;
        for (k, v) in std::mem::take(&mut ctx.labels) {
            *labels.entry(k).or_insert(0) += v;
        }
        if ctx.nontrivial {
            nontrivial += 1;
            let k = ctx.key.unwrap_or_else(|| {
                let mut h = 0xcbf29ce484222325u64;
                for c in &src.record {
                    h = (h ^ c).wrapping_mul(0x100000001b3).rotate_left(17);
                }
                h
            });
            distinct.insert(k);
            if let Some(s) = ctx.sample.take() {
                samples.push(s);
            }
        }
        if let Err(f) = r {
            if known.contains(&f.sig) {
                *known_hits.entry(f.sig).or_insert(0) += 1;
            } else if fails.iter().any(|x| x.sig == f.sig) {
                // already reported
            } else {
                // remember it unshrunk, in case shrinking kills the process
                let rec = src.record.clone();
                let _ = std::fs::write(format!("{out}.pending"), format!("{}\n{}\n{}", f.sig, f.msg.replace('\n', " "), rec.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
                let (c, f2, runs) = shrink(t, rec, f);
                let _ = std::fs::remove_file(format!("{out}.pending"));
                fails.push(FailRec { sig: f2.sig, msg: f2.msg, choices: c, idx, shrink_runs: runs });
                if fails.len() >= 4 {
                    idx += 1;
                    break;
                }
            }
        }
        idx += 1;
    }
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\":{evaluations},\"nontrivial\":{nontrivial},\"next\":{idx},"));
    o.push_str(&format!("\"labels\":{{{}}},", labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"known_hits\":{{{}}},", known_hits.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"samples\":[{}],", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"fails\":[{}]",
        fails
            .iter()
            .map(|f| format!(
                "{{\"sig\":{},\"msg\":{},\"idx\":{},\"shrink_runs\":{},\"choices\":[{}]}}",
                jstr(&f.sig),
                jstr(&f.msg),
                f.idx,
                f.shrink_runs,
                f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o.push('}');
    let mut hb = Vec::with_capacity(distinct.len() * 8);
    for d in &distinct {
        hb.extend_from_slice(&d.to_le_bytes());
    }
    std::fs::write(format!("{out}.keys"), hb).unwrap();
    std::fs::write(out, o).unwrap();
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string())).and_then(|s| s.parse().ok()).unwrap_or(0)
}

/// CPU seconds one case may take (typical cases take well under a millisecond).
const HANG_CPU_S: u64 = 40;

fn in_big_thread(f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    let (dtx, drx) = std::sync::mpsc::channel::<()>();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            tx.send(my_tid()).unwrap();
            f();
            drop(dtx);
        })
        .unwrap();
    let tid = rx.recv().unwrap();
    let mut last = (u64::MAX, 0u64);
    loop {
        match drx.recv_timeout(std::time::Duration::from_millis(1000)) {
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
            _ => return,
        }
        let p = PROGRESS.load(Ordering::Relaxed);
        let ticks = thread_cpu_ticks(tid).unwrap_or(0);
        if p != last.0 {
            last = (p, ticks);
        } else if ticks.saturating_sub(last.1) > HANG_CPU_S * 100 {
            eprintln!("HANG: case did not finish within {HANG_CPU_S} CPU seconds");
            std::process::exit(97);
        }
    }
}

pub fn main(props: &'static [Prop]) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str, tn: &str| -> (&'static Prop, &'static Target) {
        let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        });
        let t = p.targets.iter().find(|t| t.name == tn).unwrap_or_else(|| {
            eprintln!("no target {tn}");
            std::process::exit(2)
        });
        (p, t)
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                for t in p.targets {
                    println!("{{\"id\":{},\"target\":{},\"quick\":{},\"thorough\":{},\"rule\":{}}}", jstr(p.id), jstr(t.name), t.quick, t.thorough, jstr(t.rule));
                }
            }
        }
        Some("worker") => {
            // worker ID TARGET SHARD CASES SEED OUT START KNOWNFILE
            let (p, t) = find(&a[2], &a[3]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (shard, cases, seed, start) = (n(4), n(5), n(6), n(8));
            let out = a[7].clone();
            let known: HashSet<String> = std::fs::read_to_string(&a[9]).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            in_big_thread(move || worker(p, t, shard, cases, seed, &out, start, known));
        }
        Some("trace") => {
            // trace ID TARGET SHARD IDX SEED FILE
            let (p, t) = find(&a[2], &a[3]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let s = case_seed(n(6), p.id, t.name, n(4), n(5));
            let f = std::fs::File::create(&a[7]).unwrap();
            in_big_thread(move || {
                let mut src = Src::random(s).with_trace(f);
                let mut ctx = Ctx::default();
                let r = run_one(t, &mut src, &mut ctx);
                println!("{}", if r.is_ok() { "PASS" } else { "FAIL" });
            });
        }
        Some("replay") => {
            // replay ID TARGET FILE   (file: whitespace separated choices)
            let (_p, t) = find(&a[2], &a[3]);
            let c: Vec<u64> = std::fs::read_to_string(&a[4]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
            let verbose = std::env::var_os("VP_VERBOSE").is_some();
            in_big_thread(move || {
                let mut src = Src::replay(c);
                let mut ctx = Ctx { verbose, ..Default::default() };
                match run_one(t, &mut src, &mut ctx) {
                    Ok(()) => println!("PASS"),
                    Err(f) => {
                        println!("FAIL {}", f.sig);
                        println!("{}", f.msg);
                    }
                }
                let _ = std::io::stdout().flush();
            });
        }
        _ => {
            eprintln!("usage: list | worker | trace | replay");
            std::process::exit(2);
        }
    }
}
