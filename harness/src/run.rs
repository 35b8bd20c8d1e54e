//! Case runner.
//!
//! A *case* is a pure function of (seed, index): it draws its inputs from a
//! deterministic generator, drives the real library, and lets the oracle look
//! at every observed result. Cases are run by several threads; the index of
//! the case each thread is executing is kept in a progress file so that a
//! crash (abort, signal) or a hang can be attributed to a case and replayed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation budget
/// Counts bytes allocated by the current thread while a case runs: a tiny case
/// which needs more than the budget has produced an unbounded output.
pub struct CountingAlloc;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ARMED: Cell<i64> = const { Cell::new(i64::MAX) };
    /// allocations made, most bytes held since the last look
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// runs f: what it answers, the number of allocations it made, the bytes it held
/// at most beyond those held before, and those it still holds
pub fn alloc_of<A>(f: impl FnOnce() -> A) -> (A, u64, i64, i64) {
    let (c, l) = (COUNT.with(|c| c.get()), LIVE.with(|c| c.get()));
    PEAK.with(|p| p.set(l));
    let a = f();
    (a, COUNT.with(|x| x.get()) - c, PEAK.with(|p| p.get()) - l, LIVE.with(|x| x.get()) - l)
}
pub const EXIT_ALLOC: i32 = 97;
pub const EXIT_HANG: i32 = 98;

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Relaxed) { return std::ptr::null_mut() }
        let _ = LIVE.try_with(|c| {
            let v = c.get().wrapping_add(l.size() as i64);
            c.set(v);
            let _ = COUNT.try_with(|n| n.set(n.get() + 1));
            let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
            if v > ARMED.try_with(|a| a.get()).unwrap_or(i64::MAX) {
                let _ = ARMED.try_with(|a| a.set(i64::MAX));
                eprintln!("ALLOC budget exceeded");
                std::process::exit(EXIT_ALLOC)
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get().wrapping_sub(l.size() as i64)));
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;
static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
/// makes bigger allocations fail
pub fn limit_alloc(n: usize) { LIMIT.store(n, Relaxed) }
/// lifts the allocation budget for the current case
pub fn no_alloc_budget() { ARMED.with(|a| a.set(i64::MAX)); }

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng { Rng(mix(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(idx.wrapping_add(0x1234567)))) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); mix(self.0) }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// uniform in lo..=hi
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.u64() as u128 * span) >> 64) as i128) as i64
    }
    /// true with probability p%
    pub fn pct(&mut self, p: u64) -> bool { self.below(100) < p }
    pub fn pick<'a, A>(&mut self, a: &'a [A]) -> &'a A { &a[self.us(a.len())] }
    pub fn shuffle<A>(&mut self, a: &mut [A]) { for i in (1..a.len()).rev() { let j = self.us(i + 1); a.swap(i, j); } }
}

// ---------------------------------------------------------------- case context
pub enum Stop { Viol(String), Skip }
pub type R<A = ()> = Result<A, Stop>;
pub fn viol<A>(s: impl Into<String>) -> R<A> { Err(Stop::Viol(s.into())) }
pub fn skip<A>() -> R<A> { Err(Stop::Skip) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Stop::Viol(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($cx:expr, $a:expr, $b:expr, $($r:tt)*) => {{
        let (a, b) = (&$a, &$b);
        $cx.obs += 1;
        if a != b { return Err($crate::Stop::Viol(format!("{}: observed {:?}, expected {:?}", format!($($r)*), a, b))); }
    }};
}

pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    /// number of oracle verdicts (observed results compared) in this case
    pub obs: u64,
    /// signature of the inputs
    pub sig: u64,
    pub nontrivial: bool,
    /// text of the case (only written when `verbose`)
    pub verbose: bool,
    pub log: Vec<String>,
    /// counters of what has been reached
    pub tags: Vec<&'static str>,
    /// what lives as long as the case
    pub kept: Vec<Box<dyn std::any::Any>>,
}
impl Cx {
    pub fn h(&mut self, v: u64) { self.sig = mix(self.sig ^ v.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(v); }
    pub fn hraw(&mut self, r: &[(i64, i64)]) { self.h(r.len() as u64 + 77); for (a, b) in r { self.h(*a as u64); self.h(*b as u64); } }
    /// keeps it as long as the case lives
    pub fn keep<A: 'static>(&mut self, a: A) -> *const A { let b = Box::new(a); let p = &*b as *const A; self.kept.push(b); p }
    pub fn tag(&mut self, t: &'static str) { self.tags.push(t) }
    pub fn say(&mut self, f: impl FnOnce() -> String) { if self.verbose { let s = f(); if !crate::run::quiet() { eprintln!("  . {s}") } self.log.push(s) } }
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 << 8) | *x as u64 } }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
type Set64 = HashSet<u64, BuildHasherDefault<IdHash>>;

thread_local! { static LASTPANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
/// runs f; a panic becomes Err(message)
pub fn guarded<A>(f: impl FnOnce() -> A) -> Result<A, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LASTPANIC.with(|l| l.borrow().clone()))
}
/// runs f, a panic being a violation described by `what`
pub fn nopanic<A>(what: impl FnOnce() -> String, f: impl FnOnce() -> A) -> R<A> {
    match guarded(f) { Ok(a) => Ok(a), Err(m) => viol(format!("{} panicked: {}", what(), m)) }
}

pub struct Spec {
    pub id: &'static str,
    /// number of cases in quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: fn(&mut Cx) -> R,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn run_case(spec: &Spec, seed: u64, idx: u64, thorough: bool, verbose: bool) -> (Cx, Option<String>, bool) {
    let mut cx = Cx { rng: Rng::new(seed, idx), idx, thorough, obs: 0, sig: 1, nontrivial: false, verbose, log: vec![], tags: vec![], kept: vec![] };
    LIVE.with(|l| l.set(0));
    ARMED.with(|a| a.set(1 << 31));
    let r = catch_unwind(AssertUnwindSafe(|| (spec.case)(&mut cx)));
    ARMED.with(|a| a.set(i64::MAX));
    match r {
        Ok(Ok(())) => (cx, None, false),
        Ok(Err(Stop::Skip)) => (cx, None, true),
        Ok(Err(Stop::Viol(m))) => (cx, Some(m), false),
        Err(_) => { let m = LASTPANIC.with(|l| l.borrow().clone()); (cx, Some(format!("unexpected panic: {m}")), false) }
    }
}

fn thread_cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = s.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}

pub fn main(spec: Spec) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if VERBOSE.load(Relaxed) { eprintln!("  ! panic: {m}{loc}"); }
        let _ = LASTPANIC.try_with(|l| *l.borrow_mut() = format!("{m}{loc}"));
    }));
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    if let Some(k) = arg("--case") {
        // replay of one case
        let k: u64 = k.parse().unwrap();
        VERBOSE.store(true, Relaxed);
        let w = std::sync::Arc::new(AtomicU64::new(0));
        spawn_watchdog(vec![(w.clone(), std::sync::Arc::new(Mutex::new(tid_self())))], None);
        w.store(k + 1, SeqCst);
        eprintln!("replay {} seed={} case={}", spec.id, seed, k);
        let (cx, v, skipped) = run_case(&spec, seed, k, thorough, true);
        match v {
            Some(m) => { println!("VIOLATED case {k}: {m}"); std::process::exit(1) }
            None => { println!("held{} ({} observations)", if skipped { " (skipped)" } else { "" }, cx.obs); std::process::exit(0) }
        }
    }
    let n: u64 = arg("--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { spec.thorough } else { spec.quick });
    let secs: f64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(60.);
    let threads: usize = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = arg("--out").unwrap_or("/dev/stdout".into());
    let progress = arg("--progress");
    let t0 = Instant::now();
    let first: u64 = arg("--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    let n = n + first;
    let next = AtomicU64::new(first);
    let stop = AtomicBool::new(false);
    let shards: Vec<Mutex<Set64>> = (0..64).map(|_| Mutex::new(Set64::default())).collect();
    let full = AtomicU64::new(0);
    let tot: Mutex<(u64, u64, u64, u64, std::collections::BTreeMap<&'static str, u64>)> = Mutex::new((0, 0, 0, 0, Default::default()));
    let viols: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let slots: Vec<_> = (0..threads).map(|_| (std::sync::Arc::new(AtomicU64::new(0)), std::sync::Arc::new(Mutex::new(String::new())))).collect();
    if !cfg!(miri) { spawn_watchdog(slots.clone(), progress.clone()); }
    let pf = progress.as_ref().map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (spec, next, stop, shards, full, tot, viols, slots, pf) = (&spec, &next, &stop, &shards, &full, &tot, &viols, &slots, &pf);
            sc.spawn(move || {
                if !cfg!(miri) { *slots[t].1.lock().unwrap() = tid_self(); }
                let (mut ev, mut ob, mut sk, mut nt) = (0u64, 0u64, 0u64, 0u64);
                let mut tags: std::collections::BTreeMap<&'static str, u64> = Default::default();
                while !stop.load(Relaxed) {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= n { break }
                    if (k % 64 == 0 || cfg!(miri)) && t0.elapsed().as_secs_f64() > secs { stop.store(true, Relaxed); break }
                    slots[t].0.store(k + 1, Relaxed);
                    if let Some(f) = pf {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&(k + 1).to_le_bytes(), 8 * t as u64);
                    }
                    let (cx, v, skipped) = run_case(spec, seed, k, thorough, false);
                    ob += cx.obs;
                    for g in cx.tags { *tags.entry(g).or_default() += 1 }
                    if skipped { sk += 1 } else { ev += 1 }
                    if !skipped && cx.nontrivial {
                        nt += 1;
                        if full.load(Relaxed) < 6_000_000 {
                            let mut s = shards[(cx.sig % 64) as usize].lock().unwrap();
                            if s.insert(cx.sig) { full.fetch_add(1, Relaxed); }
                        }
                    }
                    if let Some(m) = v {
                        let mut vs = viols.lock().unwrap();
                        vs.push((k, m));
                        if vs.len() >= 40 { stop.store(true, Relaxed) }
                    }
                }
                slots[t].0.store(0, Relaxed);
                let mut g = tot.lock().unwrap();
                g.0 += ev; g.1 += ob; g.2 += sk; g.3 += nt;
                for (a, b) in tags { *g.4.entry(a).or_default() += b }
            });
        }
    });
    let g = tot.into_inner().unwrap();
    let mut vs = viols.into_inner().unwrap();
    vs.sort();
    let distinct: usize = shards.iter().map(|s| s.lock().unwrap().len()).sum();
    // samples: re-run a few case indices verbosely, silently, to get their text
    let mut samples = vec![];
    for k in [1u64, 12, 123, 1234, 4321] {
        if k < n && samples.len() < 3 && !cfg!(miri) {
            let (cx, _, sk) = run_case_quiet(&spec, seed, k, thorough);
            if !sk && !cx.log.is_empty() { samples.push(format!("case {k}: {}", cx.log.join("; ").chars().take(600).collect::<String>())) }
        }
    }
    let tags = g.4.iter().map(|(a, b)| format!("{}:{}", jstr(a), b)).collect::<Vec<_>>().join(",");
    let js = format!("{{\"id\":{},\"seed\":{},\"cases\":{},\"observations\":{},\"skipped\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"distinct_capped\":{},\"rule\":{},\"wall_s\":{:.2},\"completed\":{},\"reached\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
        jstr(spec.id), seed, g.0, g.1, g.2, g.3, distinct, distinct >= 6_000_000, jstr(spec.rule), t0.elapsed().as_secs_f64(),
        g.0 + g.2 >= n - first, tags,
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        vs.iter().map(|(k, m)| format!("{{\"case\":{},\"msg\":{}}}", k, jstr(m))).collect::<Vec<_>>().join(","));
    let mut f = std::fs::OpenOptions::new().create(true).write(true).truncate(out != "/dev/stdout").open(&out).unwrap();
    writeln!(f, "{js}").unwrap();
    std::process::exit(if vs.is_empty() { 0 } else { 1 });
}

fn run_case_quiet(spec: &Spec, seed: u64, k: u64, th: bool) -> (Cx, Option<String>, bool) {
    QUIET.store(true, Relaxed);
    let r = run_case(spec, seed, k, th, true);
    QUIET.store(false, Relaxed);
    r
}
static QUIET: AtomicBool = AtomicBool::new(false);
static VERBOSE: AtomicBool = AtomicBool::new(false);

fn tid_self() -> String {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default()
}

/// A case normally takes far less than a millisecond of processor time: one
/// which consumed 25 s of it without returning makes no progress.
fn spawn_watchdog(slots: Vec<(std::sync::Arc<AtomicU64>, std::sync::Arc<Mutex<String>>)>, progress: Option<String>) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, (s, tid)) in slots.iter().enumerate() {
                let k = s.load(Relaxed);
                let tid = tid.lock().unwrap().clone();
                if k == 0 || tid.is_empty() { seen[i] = (0, 0); continue }
                if let Some(c) = thread_cpu_ticks(&tid) {
                    if seen[i].0 != k { seen[i] = (k, c) }
                    else if c.saturating_sub(seen[i].1) > 2500 {
                        if let Some(p) = &progress { let _ = std::fs::write(format!("{p}.hang"), k.to_string()); }
                        eprintln!("HANG case {}", k - 1);
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        }
    });
}
pub fn quiet() -> bool { QUIET.load(Relaxed) }
