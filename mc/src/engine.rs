//! Stateless explorer: enumerates every sequence of choices a body can make,
//! depth first, in parallel, with crash and hang isolation by a parent process.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29).wrapping_add(x);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z ^ (z >> 29)
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = mix(h, b.len() as u64);
    for c in b.chunks(8) {
        let mut a = [0u8; 8];
        a[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(a));
    }
    h
}

#[derive(Debug, Clone)]
pub struct Viol { pub msg: String, pub bytes: Vec<u8>, pub fingerprint: String }
pub fn viol<T>(msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), bytes: vec![], fingerprint: String::new() })
}
pub fn violb<T>(msg: impl Into<String>, b: &[u8]) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), bytes: b.to_vec(), fingerprint: String::new() })
}
pub type R = Result<(), Viol>;

/// The chooser handed to a body.
pub struct Ch {
    trail: Vec<(u32, u32)>, // (choice, arity)
    fixed: Vec<(u32, u32)>, // replayed prefix
    pub tier: Tier,
    pub execs: u64,
    pub trans: u64,
    pub nontrivial: u64,
    states: U64Set,
    states_capped: bool,
    budget: u32,
    diverged: bool,
    samples: Vec<String>,
    sample_count: u64,
    pub verbose: bool,
}
const STATE_CAP: usize = 6_000_000;

impl Ch {
    fn new(tier: Tier) -> Ch {
        Ch { trail: vec![], fixed: vec![], tier, execs: 0, trans: 0, nontrivial: 0, states: U64Set::default(),
             states_capped: false, budget: 0, diverged: false, samples: vec![], sample_count: 0, verbose: false }
    }
    /// Makes one choice out of `n` alternatives; explored exhaustively.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n >= 1, "choose(0)");
        if n == 1 { return 0; }
        let i = self.trail.len();
        let c = if i < self.fixed.len() {
            if self.fixed[i].1 != 0 && self.fixed[i].1 != n as u32 { self.diverged = true; }
            (self.fixed[i].0).min(n as u32 - 1)
        } else { 0 };
        self.trail.push((c, n as u32));
        self.trans += 1;
        c as usize
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { let i = self.choose(xs.len()); xs[i] }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.choose(hi - lo + 1) }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    pub fn set_budget(&mut self, b: u32) { self.budget = b; }
    /// A choice that defaults to 0; anything else costs one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 { return 0; }
        let c = self.choose(n);
        if c != 0 { self.budget -= 1; }
        c
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// Tier-dependent parameter.
    pub fn t<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    /// Records a canonical state (model state + observation) as visited.
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP { self.states.insert(h); } else { self.states_capped = true; }
    }
    /// Records one execution of the code under test.
    pub fn exec(&mut self, nontrivial: bool) { heartbeat(); self.execs += 1; if nontrivial { self.nontrivial += 1; } }
    pub fn execs(&mut self, n: u64, nontrivial: u64) { heartbeat(); self.execs += n; self.nontrivial += nontrivial; }
    pub fn steps(&mut self, n: u64) { self.trans += n; }
    /// Offers a written-out case for the evidence (a few, spread out, are kept).
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sample_count += 1;
        if self.sample_count.is_power_of_two() && self.sample_count >= 8 || self.sample_count == 1 {
            let s = f();
            if self.samples.len() < 6 { self.samples.push(s) } else {
                let k = (self.sample_count.trailing_zeros() as usize) % 6; self.samples[k] = s }
        }
    }
    pub fn parity(&self) -> u64 { self.trail.iter().map(|x| x.0 as u64).sum() }
}

pub type Body = fn(&mut Ch) -> R;
pub struct Family { pub name: &'static str, pub bound: &'static str, pub body: Body, pub tiers: &'static [Tier] }
pub const BOTH: &[Tier] = &[Tier::Quick, Tier::Thorough];
pub const THOROUGH: &[Tier] = &[Tier::Thorough];
#[macro_export]
macro_rules! fam {
    ($name:expr, $bound:expr, $body:expr) => { $crate::engine::Family { name: $name, bound: $bound, body: $body, tiers: $crate::engine::BOTH } };
    ($name:expr, $bound:expr, $body:expr, thorough) => { $crate::engine::Family { name: $name, bound: $bound, body: $body, tiers: $crate::engine::THOROUGH } };
}
pub struct Prop { pub id: &'static str, pub level: &'static str, pub rule: &'static str,
                  pub assumptions: &'static [&'static str], pub families: Vec<Family> }

// ---------------------------------------------------------------- guard

thread_local! {
    static IN_GUARD: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                  else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("panic at {}: {}", loc, msg);
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if !IN_GUARD.with(|g| g.get()) { eprintln!("harness {}", s); }
    }));
}
/// Did the last panic outside of any guard come from the code under test, or from the harness unwrapping its error?
fn panic_is_theirs() -> bool {
    let m = LAST_PANIC.with(|p| p.borrow().clone());
    m.contains("/repo/src/") || ["FormatError(", "IoError(", "Unsupported("].iter().any(|e| m.contains("on an `Err` value") && m.contains(e))
}
/// Runs code under test; a panic in it becomes an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_GUARD.with(|g| g.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(prev));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// As `guard`, but a panic is a violation.
pub fn nopanic<T>(bytes: &[u8], f: impl FnOnce() -> T) -> Result<T, Viol> {
    guard(f).or_else(|m| violb(format!("code under test panicked: {}", m), bytes))
}

// ---------------------------------------------------------------- shared slots

pub const NT_MAX: usize = 16;
const SLOT: usize = 512; // u32 words per thread
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn limit_memory(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); } }
#[derive(Clone, Copy)]
pub struct Slots(*mut u32);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
        f.set_len((NT_MAX * SLOT * 4) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), NT_MAX * SLOT * 4, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slots(p as *mut u32)
    }
    pub fn anon() -> Slots { Slots(Box::leak(vec![0u32; NT_MAX * SLOT].into_boxed_slice()).as_mut_ptr()) }
    fn w(&self, t: usize, i: usize, v: u32) { unsafe { std::ptr::write_volatile(self.0.add(t * SLOT + i), v) } }
    fn r(&self, t: usize, i: usize) -> u32 { unsafe { std::ptr::read_volatile(self.0.add(t * SLOT + i)) } }
    fn begin(&self, t: usize, fam: usize, st: &[(u32, u32)]) {
        self.w(t, 1, 0);
        self.w(t, 0, self.r(t, 0).wrapping_add(1));
        self.w(t, 2, fam as u32);
        let n = st.len().min(SLOT - 8);
        for (i, s) in st.iter().take(n).enumerate() { self.w(t, 8 + i, s.0); }
        self.w(t, 3, n as u32);
        self.w(t, 1, 1);
    }
    fn end(&self, t: usize) { self.w(t, 1, 0); }
    pub fn beat(&self, t: usize) -> (u32, bool) { (self.r(t, 0), self.r(t, 1) == 1) }
    pub fn current(&self, t: usize) -> Option<(usize, Vec<u32>)> {
        if self.r(t, 1) != 1 { return None; }
        let n = self.r(t, 3) as usize;
        Some((self.r(t, 2) as usize, (0..n).map(|i| self.r(t, 8 + i)).collect()))
    }
}
thread_local! { static MYSLOT: Cell<Option<(Slots, usize)>> = const { Cell::new(None) }; }
/// A body with a long inner loop calls this so the hang detector sees progress.
pub fn heartbeat() { MYSLOT.with(|m| if let Some((s, t)) = m.get() { s.w(t, 0, s.r(t, 0).wrapping_add(1)); }) }

// ---------------------------------------------------------------- explorer

#[derive(Clone)]
struct Task { fam: usize, nodes: Vec<(u32, u32, u32)>, base: usize } // (choice, limit, arity)
pub struct Found { pub fam: usize, pub choices: Vec<u32>, pub viol: Viol, pub reproduced: bool }
#[derive(Default, Clone)]
pub struct FamStat { pub leaves: u64, pub execs: u64, pub nontrivial: u64, pub trans: u64, pub states: u64, pub capped: bool, pub maxdepth: usize, pub samples: Vec<String>, pub wall_ms: u64 }
pub struct Outcome { pub stats: Vec<FamStat>, pub found: Vec<Found>, pub known: Vec<Found>, pub engine_error: Option<String> }

/// Is it this property's business when executions are not deterministic?
pub static SHARED_STATE: AtomicBool = AtomicBool::new(false);
struct Shared { q: Mutex<(Vec<Task>, usize)>, cv: Condvar, idle: AtomicUsize, stop: AtomicBool, err: Mutex<Option<String>> }

pub fn explore(families: &[Family], tier: Tier, nthreads: usize, slots: Slots, known: &(dyn Fn(&Viol) -> bool + Sync)) -> Outcome { explore_from(families, 0, tier, nthreads, slots, known) }
pub fn explore_from(families: &[Family], first: usize, tier: Tier, nthreads: usize, slots: Slots, known: &(dyn Fn(&Viol) -> bool + Sync)) -> Outcome {
    let mut init = vec![];
    for (i, f) in families.iter().enumerate().skip(first).rev() {
        if f.tiers.contains(&tier) { init.push(Task { fam: i, nodes: vec![], base: 0 }); }
    }
    let sh = Shared { q: Mutex::new((init, 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), err: Mutex::new(None) };
    let stats: Mutex<Vec<FamStat>> = Mutex::new(vec![FamStat::default(); families.len()]);
    let sets: Mutex<Vec<U64Set>> = Mutex::new((0..families.len()).map(|_| U64Set::default()).collect());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let knownf: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let live = AtomicU64::new(nthreads as u64);
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (sh, stats, sets, found, knownf, live) = (&sh, &stats, &sets, &found, &knownf, &live);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                MYSLOT.with(|m| m.set(Some((slots, t))));
                loop {
                    // get a task
                    let task = {
                        let mut g = sh.q.lock().unwrap();
                        loop {
                            if sh.stop.load(Relaxed) { break None; }
                            if let Some(x) = g.0.pop() { g.1 += 1; break Some(x); }
                            if g.1 == 0 { sh.cv.notify_all(); break None; }
                            sh.idle.fetch_add(1, Relaxed);
                            g = sh.cv.wait(g).unwrap();
                            sh.idle.fetch_sub(1, Relaxed);
                        }
                    };
                    let task = match task { Some(x) => x, None => break };
                    let fam = task.fam;
                    let t0 = std::time::Instant::now();
                    let mut ch = Ch::new(tier);
                    let mut leaves = 0u64;
                    let mut maxdepth = 0;
                    let mut nodes = task.nodes;
                    let base = task.base;
                    loop {
                        ch.fixed.clear();
                        ch.fixed.extend(nodes.iter().map(|n| (n.0, n.2)));
                        ch.trail.clear();
                        ch.budget = 0;
                        ch.diverged = false;
                        slots.begin(t, fam, &ch.fixed);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (families[fam].body)(&mut ch)));
                        slots.end(t);
                        let r = match r { Ok(r) => r, Err(_) if panic_is_theirs() => viol(format!("code under test panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))), Err(_) => {
                            // The harness is at a loss with what the code under test gave it. If that recurs, it is
                            // no fault of the machine.
                            let said = LAST_PANIC.with(|p| p.borrow().clone());
                            let mut c2 = Ch::new(tier);
                            c2.fixed = ch.trail.iter().map(|x| (x.0, 0)).collect();
                            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (families[fam].body)(&mut c2))).is_ok() {
                                *sh.err.lock().unwrap() = Some(format!("harness panicked in family {} choices {:?}", families[fam].name, ch.trail));
                                sh.stop.store(true, Relaxed); break;
                            }
                            viol(format!("results beyond what the harness can interpret: {}", said)) } };
                        if (ch.diverged || ch.trail.len() < ch.fixed.len()) && r.is_ok() && SHARED_STATE.load(Relaxed) {
                            let choices = ch.trail.iter().map(|x| x.0).collect();
                            let v = Viol { msg: "the same calls take another course when repeated, with other decoders at work on other threads".into(), bytes: vec![], fingerprint: String::new() };
                            found.lock().unwrap().push(Found { fam, choices, viol: v, reproduced: false });
                            sh.stop.store(true, Relaxed); break;
                        }
                        if (ch.diverged || ch.trail.len() < ch.fixed.len()) && r.is_ok() {
                            *sh.err.lock().unwrap() = Some(format!("replay divergence in family {} choices {:?}", families[fam].name, ch.trail));
                            sh.stop.store(true, Relaxed); break;
                        }
                        leaves += 1;
                        maxdepth = maxdepth.max(ch.trail.len());
                        if let Err(v) = r {
                            let choices: Vec<u32> = ch.trail.iter().map(|x| x.0).collect();
                            let mut c2 = Ch::new(tier);
                            c2.fixed = choices.iter().map(|&c| (c, 0)).collect();
                            let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (families[fam].body)(&mut c2)));
                            let reproduced = matches!(&again, Ok(Err(w)) if w.msg == v.msg) || again.is_err();
                            if known(&v) { let mut k = knownf.lock().unwrap(); if k.len() < 64 { k.push(Found { fam, choices, viol: v, reproduced }); } }
                            else { found.lock().unwrap().push(Found { fam, choices, viol: v, reproduced }); sh.stop.store(true, Relaxed); }
                        }
                        if sh.stop.load(Relaxed) { break; }
                        // extend nodes with the newly made choices
                        for i in nodes.len()..ch.trail.len() { nodes.push((ch.trail[i].0, ch.trail[i].1, ch.trail[i].1)); }
                        // donate work
                        if sh.idle.load(Relaxed) > 0 {
                            if let Some(i) = (base..nodes.len()).find(|&i| nodes[i].0 + 1 < nodes[i].1) {
                                let mut p = nodes[..=i].to_vec();
                                let (c, l, a) = p[i];
                                let mid = c + 1 + (l - c - 1) / 2; // keep [c, mid), give [mid, l)
                                let mid = if mid >= l { c + 1 } else { mid };
                                p[i] = (mid, l, a);
                                nodes[i].1 = mid;
                                let mut g = sh.q.lock().unwrap();
                                g.0.push(Task { fam, nodes: p, base: i });
                                sh.cv.notify_one();
                            }
                        }
                        // next
                        let mut more = false;
                        while nodes.len() > base {
                            let l = nodes.last_mut().unwrap();
                            if l.0 + 1 < l.1 { l.0 += 1; more = true; break; }
                            nodes.pop();
                        }
                        if !more { break; }
                    }
                    {
                        let mut st = stats.lock().unwrap();
                        let s = &mut st[fam];
                        s.leaves += leaves; s.execs += ch.execs; s.nontrivial += ch.nontrivial; s.trans += ch.trans;
                        s.capped |= ch.states_capped; s.maxdepth = s.maxdepth.max(maxdepth);
                        s.wall_ms += t0.elapsed().as_millis() as u64;
                        for x in ch.samples { if s.samples.len() < 6 { s.samples.push(x) } }
                    }
                    {
                        let mut g = sets.lock().unwrap();
                        if g[fam].len() < ch.states.len() { std::mem::swap(&mut g[fam], &mut ch.states); }
                        if g[fam].len() < 4 * STATE_CAP { let s: Vec<u64> = ch.states.into_iter().collect(); g[fam].extend(s); } else { stats.lock().unwrap()[fam].capped = true; }
                    }
                    let mut g = sh.q.lock().unwrap();
                    g.1 -= 1;
                    if g.1 == 0 || sh.stop.load(Relaxed) { sh.cv.notify_all(); }
                }
                sh.cv.notify_all();
                live.fetch_sub(1, Relaxed);
            }).unwrap();
        }
    });
    let mut stats = stats.into_inner().unwrap();
    for (s, set) in stats.iter_mut().zip(sets.into_inner().unwrap()) { s.states = set.len() as u64; }
    let mut found = found.into_inner().unwrap();
    found.sort_by(|a, b| (a.fam, a.choices.len(), &a.choices).cmp(&(b.fam, b.choices.len(), &b.choices)));
    let e = sh.err.into_inner().unwrap();
    Outcome { stats, found, known: knownf.into_inner().unwrap(), engine_error: e }
}

/// Runs one body with given choices (missing ones are 0).
pub fn run_one(f: &Family, tier: Tier, choices: &[u32], verbose: bool) -> (R, Vec<u32>) {
    let mut c = Ch::new(tier);
    c.verbose = verbose;
    c.fixed = choices.iter().map(|&c| (c, 0)).collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.body)(&mut c)));
    let r = match r { Ok(r) => r, Err(_) if panic_is_theirs() => viol(format!("code under test panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))), Err(_) => viol(format!("results beyond what the harness can interpret: {}", LAST_PANIC.with(|p| p.borrow().clone()))) };
    (r, c.trail.iter().map(|x| x.0).collect())
}

// ---------------------------------------------------------------- allocator

pub struct Alloc;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static POISON: Cell<u16> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
const HARD: usize = 1 << 30;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > HARD { return std::ptr::null_mut(); }
        INSIDE.with(|x| x.set(true));
        let p = std::alloc::System.alloc(l);
        INSIDE.with(|x| x.set(false));
        if !p.is_null() { acct(l.size() as i64); let b = POISON.with(|x| x.get()); if b & 0x100 != 0 { std::ptr::write_bytes(p, b as u8, l.size()); } }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > HARD { return std::ptr::null_mut(); }
        INSIDE.with(|x| x.set(true));
        let p = std::alloc::System.alloc_zeroed(l);
        INSIDE.with(|x| x.set(false));
        if !p.is_null() { acct(l.size() as i64); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { CUR.with(|c| c.set(c.get() - l.size() as i64)); INSIDE.with(|x| x.set(true)); std::alloc::System.dealloc(p, l); INSIDE.with(|x| x.set(false)); }
}
/// Is this thread in the system's allocator (which may hold locks)?
pub fn in_allocator() -> bool { INSIDE.with(|x| x.get()) }
fn acct(n: i64) {
    CUR.with(|c| { let v = c.get() + n; c.set(v); PEAK.with(|p| if v > p.get() { p.set(v) }); });
    TOTAL.with(|t| t.set(t.get() + n as u64));
}
pub struct Mem { pub peak: u64, pub total: u64 }
/// Measures allocation by this thread during `f`: peak above the level at entry, and the total.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Mem) {
    let c0 = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c0));
    let t0 = TOTAL.with(|t| t.get());
    let r = f();
    (r, Mem { peak: (PEAK.with(|p| p.get()) - c0) as u64, total: TOTAL.with(|t| t.get()) - t0 })
}
/// Fills fresh non-zeroed allocations of this thread with `b` during `f`.
pub fn poison<T>(b: u8, f: impl FnOnce() -> T) -> T {
    let old = POISON.with(|p| p.replace(0x100 | b as u16));
    let r = f();
    POISON.with(|p| p.set(old));
    r
}
