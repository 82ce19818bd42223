//! C20 at the level of instructions: a decoder is single-stepped (trap flag), and another one is run on a second thread
//! in between its instructions. Each case is a process of its own, so that its first decoding is the first ever.
use crate::enc::*;
use crate::engine::*;
use crate::p_twise;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::io::Cursor;
use std::process::Command;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ what is run
pub struct Subject { what: String, bytes: Vec<u8>, how: u8 }
/// Small inputs that between them go through all of the library.
pub fn subjects() -> Vec<Subject> {
    let mut v = vec![];
    let mut add = |what: &str, bytes: Vec<u8>, how: u8| v.push(Subject { what: what.into(), bytes, how });
    for (i, b) in p_twise::BASES.iter().enumerate() {
        let mut s = *b;
        s[p_twise::SIZE] = [7, 8, 13, 6, 9][i];
        s[p_twise::PORDER] = 0;
        s[p_twise::BSCODE] = 0;
        if i == 3 { s[p_twise::CHAN] = 2; }
        if let Some(f) = p_twise::make(&s) { add(&format!("base frame {}", i), f.bytes, if i % 2 == 0 { 0 } else { 1 }); }
    }
    let n = 24;
    let a = [wave(n, 16, 0, 3), wave(n, 16, 1, 4)];
    let st = |vc: &[&[u8]], ch: Chan, kinds: &[Sub]| -> Vec<u8> {
        let info = Info { minb: 16, maxb: 4096, ..Info::new(16, ch.n() as u32, 16, 48) };
        let mut b = head(&info, &[(1, vec![0; 3]), (4, vorbis(b"vendor", vc)), (2, b"appldata".to_vec())]);
        for k in 0..2 { b.extend(quick_frame(ch, 16, true, k * 24, &a[..ch.n()], kinds).unwrap()); }
        b
    };
    let good = st(&[b"TITLE=a", b"title=b", b"x=y"], Chan::MS, &[sub(Kind::Fixed(2, res(false, 1, K::Auto))), sub(Kind::Fixed(1, res(true, 0, K::Auto)))]);
    add("stream by blocks", good.clone(), 2);
    add("stream by samples, delivered in sevens", good.clone(), 3);
    add("metadata blocks", good.clone(), 4);
    let other = st(&[b"A=b"], Chan::LS, &[sub(lpc(&[3, -1], 4, 1, res(false, 0, K::Auto))), sub(Kind::Verbatim)]);
    add("another stream by owned samples", other.clone(), 5);
    let mut bad = good.clone();
    let l = bad.len();
    bad[l - 1] ^= 1;
    add("stream with a wrong checksum", bad, 2);
    add("stream cut short", good[..l - 9].to_vec(), 3);
    let mut f = quick_frame(Chan::Ind(1), 16, true, 5, &a[..1], &[Sub { kind: Kind::Verbatim, wasted: 0 }]).unwrap();
    f[7] |= 0x80;
    fix_crc16(&mut f);
    add("frame with a reserved bit", f, 0);
    add("comments without a separator", st(&[b"abc"], Chan::Ind(1), &[sub(Kind::Verbatim)]), 2);
    let fx = Info { minb: 24, maxb: 24, ..Info::new(16, 1, 16, 40) };
    let mut b = head(&fx, &[]);
    b.extend(quick_frame(Chan::Ind(1), 16, false, 0, &a[..1], &[sub(Kind::Fixed(4, res0()))]).unwrap());
    b.extend(quick_frame(Chan::Ind(1), 16, false, 1, &[a[0][..16].to_vec()], &[sub(Kind::Constant)]).unwrap_or_default());
    add("stream of a fixed block size", b, 2);
    v
}
fn text(v: &mut Vec<i64>, s: &str) { v.push(s.len() as i64); v.extend(s.bytes().map(|b| b as i64)); }
fn err(v: &mut Vec<i64>, e: &claxon::Error) { v.push(-1); match e { claxon::Error::IoError(e) => { v.push(1); v.push(e.kind() as i64); } claxon::Error::FormatError(s) => { v.push(2); text(v, s); } claxon::Error::Unsupported(s) => { v.push(3); text(v, s); } } }
fn block_to(v: &mut Vec<i64>, b: &claxon::Block) { v.extend([b.time() as i64, b.duration() as i64, b.channels() as i64]); for c in 0..b.channels() { v.extend(b.channel(c).iter().map(|&x| x as i64)); } }
fn meta_to<T: std::io::Read>(v: &mut Vec<i64>, r: &FlacReader<T>) {
    let i = r.streaminfo();
    v.extend([i.min_block_size as i64, i.max_block_size as i64, i.sample_rate as i64, i.channels as i64, i.bits_per_sample as i64, i.samples.unwrap_or(0) as i64]);
    if let Some(x) = r.vendor() { text(v, x); }
    for (a, b) in r.tags() { text(v, a); text(v, b); }
    for x in r.get_tag("Title") { text(v, x); }
}
fn frames<T: claxon::input::ReadBytes>(v: &mut Vec<i64>, mut r: FrameReader<T>) {
    let mut buf = vec![];
    loop { match r.read_next_or_eof(buf) { Ok(Some(b)) => { block_to(v, &b); buf = b.into_buffer(); } Ok(None) => { v.push(-2); return } Err(e) => { err(v, &e); return } } }
}
/// Everything the subject shows, as numbers.
fn observe(s: &Subject) -> Vec<i64> {
    let mut v = Vec::with_capacity(4096);
    let d = &s.bytes[..];
    match s.how {
        0 => frames(&mut v, FrameReader::new(Cursor::new(d))),
        1 => frames(&mut v, FrameReader::new(BufferedReader::new(d))),
        2 => match FlacReader::new(d) { Err(e) => err(&mut v, &e), Ok(mut r) => { meta_to(&mut v, &r); frames(&mut v, r.blocks()); } },
        3 => match FlacReader::new(Src::new(d).chunk(Chunk::Uniform(7))) { Err(e) => err(&mut v, &e), Ok(mut r) => { meta_to(&mut v, &r); for x in r.samples() { match x { Ok(x) => v.push(x as i64), Err(e) => err(&mut v, &e) } } } },
        4 => for b in MetadataBlockReader::new(Cursor::new(&d[4..])) { match b {
            Ok(MetadataBlock::StreamInfo(i)) => v.extend([0, i.channels as i64, i.sample_rate as i64]), Ok(MetadataBlock::Padding { length }) => v.extend([1, length as i64]),
            Ok(MetadataBlock::Application { id, data }) => { v.extend([2, id as i64]); v.extend(data.iter().map(|&x| x as i64)); }
            Ok(MetadataBlock::VorbisComment(c)) => { text(&mut v, &c.vendor); for x in &c.comments { text(&mut v, &x.0); v.push(x.1 as i64); } } Ok(_) => v.push(9), Err(e) => err(&mut v, &e) } },
        _ => match FlacReader::new(Cursor::new(d)) { Err(e) => err(&mut v, &e), Ok(r) => { meta_to(&mut v, &r); for x in r.into_samples() { match x { Ok(x) => v.push(x as i64), Err(e) => err(&mut v, &e) } } } },
    }
    v
}
fn digest(v: &[i64]) -> u64 { let mut x = v.len() as u64; for &y in v { x = mix(x, y as u64); } x }

// ------------------------------------------------------------------ stepping
extern "C" {
    fn sigaction(n: i32, a: *const SigAct, o: *mut SigAct) -> i32;
    fn sched_yield() -> i32;
}
#[repr(C)]
struct SigAct { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
/// What the two threads share; lives on the heap, not among the statics that are watched.
struct Shared { go: AtomicU32, done: AtomicU32, quit: AtomicU32, runs: AtomicU64, bad: AtomicU64, at: AtomicU64 }
struct Step { n: u64, every: u64, phase: u64, exactly: u64, watch: bool, ranges: Vec<(usize, usize)>, hash: u64, changes: Vec<u64>, sh: *const Shared, blocked: u32 }
impl Step { fn wants(&self) -> bool { self.every != 0 && self.n % self.every == self.phase || self.n == self.exactly } }
thread_local! { static STEP: std::cell::Cell<*mut Step> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
fn hash_memory(r: &[(usize, usize)]) -> u64 {
    let mut x = 0u64;
    for &(a, b) in r { let mut p = a; while p < b { x = (x.rotate_left(5) ^ unsafe { std::ptr::read_volatile(p as *const u64) }).wrapping_mul(0x9E37_79B9_7F4A_7C15); p += 8; } }
    x
}
extern "C" fn on_trap(_s: i32, _i: *mut u8, _c: *mut u8) {
    if in_allocator() { return; }
    let p = STEP.with(|s| s.get());
    if p.is_null() { return; }
    let s = unsafe { &mut *p };
    s.n += 1;
    if s.watch {
        let h = hash_memory(&s.ranges);
        if h != s.hash { s.hash = h; if s.changes.len() < s.changes.capacity() { s.changes.push(s.n); } }
    }
    if !s.wants() { return; }
    let sh = unsafe { &*s.sh };
    let ticket = sh.go.load(Relaxed);
    if sh.done.load(Acquire) != ticket { return; } // still blocked by something this thread holds
    sh.at.store(s.n, Relaxed);
    sh.go.store(ticket.wrapping_add(1), Release);
    let mut spins = 0u64;
    let limit = if s.blocked > 20 { 2_000 } else { 200_000 };
    while sh.done.load(Acquire) != ticket.wrapping_add(1) {
        spins += 1;
        if spins > 200 { unsafe { sched_yield(); } } else { std::hint::spin_loop(); }
        // The other thread waits for something this one holds: go on, it will finish later.
        if spins > limit { s.blocked += 1; return; }
    }
}
#[cfg(target_arch = "x86_64")]
fn stepped(st: &mut Step, s: &Subject) -> Vec<i64> {
    st.n = 0;
    if st.watch { st.hash = hash_memory(&st.ranges); }
    STEP.with(|p| p.set(st));
    unsafe { std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq"); }
    let v = observe(s);
    unsafe { std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq"); }
    STEP.with(|p| p.set(std::ptr::null_mut()));
    v
}
#[cfg(not(target_arch = "x86_64"))]
fn stepped(_: &mut Step, s: &Subject) -> Vec<i64> { observe(s) }
/// Writable memory of the program itself: its statics.
fn statics() -> Vec<(usize, usize)> {
    let exe = std::env::current_exe().unwrap();
    let exe = exe.to_str().unwrap().to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut v = vec![];
    let mut end = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        // The part of .bss beyond the file is an anonymous mapping right behind.
        let own = f.get(5) == Some(&&exe[..]) || f.len() == 5 && a == end && end != 0;
        if own { end = b; if f[1].starts_with("rw") { v.push((a, b)); } } else { end = 0; }
    }
    v
}
/// One case in a process of its own. Modes: `fresh K` (the first decoding ever, the other one at instruction K; 0: none,
/// report instructions that change statics), `warm QUICK`.
pub fn child(a: &[String]) -> i32 {
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (ia, ib, ea, eb) = (num(0) as usize, num(1) as usize, num(2), num(3));
    let all: &'static [Subject] = Box::leak(subjects().into_boxed_slice());
    let sa = SigAct { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    if unsafe { sigaction(5, &sa, std::ptr::null_mut()) } != 0 { println!("unavailable"); return 3; }
    let sh: &'static Shared = Box::leak(Box::new(Shared { go: AtomicU32::new(0), done: AtomicU32::new(0), quit: AtomicU32::new(0), runs: AtomicU64::new(0), bad: AtomicU64::new(0), at: AtomicU64::new(0) }));
    let other = std::thread::spawn(move || {
        let mut seen = 0;
        let mut idle = 0u32;
        while sh.quit.load(Relaxed) == 0 {
            let g = sh.go.load(Acquire);
            if g == seen { idle += 1; if idle > 2000 { unsafe { sched_yield(); } } else { std::hint::spin_loop(); } continue; }
            idle = 0;
            seen = g;
            if digest(&observe(&all[ib])) != eb { sh.bad.compare_exchange(0, sh.at.load(Relaxed), Relaxed, Relaxed).ok(); }
            sh.runs.fetch_add(1, Relaxed);
            sh.done.store(g, Release);
        }
    });
    let mut st = Step { n: 0, every: 0, phase: 0, exactly: u64::MAX, watch: false, ranges: vec![], hash: 0, changes: Vec::with_capacity(4000), sh, blocked: 0 };
    let mut steps = 0u64;
    // Runs A once under the plan; says what went wrong.
    let mut go = |st: &mut Step, what: &dyn Fn() -> String| -> Result<(), String> {
        let v = stepped(st, &all[ia]);
        steps += st.n;
        let t = Instant::now();
        while sh.done.load(Acquire) != sh.go.load(Relaxed) { std::thread::sleep(Duration::from_millis(1)); if t.elapsed().as_secs() > 30 { return Err(format!("the second decoder does not finish ({})", what())); } }
        let k = sh.bad.load(Relaxed);
        if k != 0 { return Err(format!("decoding ({}) at instruction {} of decoding ({}) ({}) gives something else than on its own", all[ib].what, k, all[ia].what, what())); }
        if digest(&v) != ea { return Err(format!("decoding ({}) gives something else than on its own when ({}) is decoded in between ({})", all[ia].what, all[ib].what, what())); }
        Ok(())
    };
    let r = (|| -> Result<(), String> {
        if a[4] == "fresh" {
            let k = num(5);
            if k == 0 { st.watch = true; st.ranges = statics(); }
            st.exactly = if k == 0 { u64::MAX } else { k };
            return go(&mut st, &|| format!("the first decoding in a process, instruction {}", k));
        }
        let quick = a[5] == "1";
        let _ = (observe(&all[ia]), observe(&all[ib]));
        st.watch = true;
        st.ranges = statics();
        go(&mut st, &|| "no interruption".into())?;
        st.watch = false;
        let changes = st.changes.clone();
        let plans: &[(u64, u64)] = if quick { &[(1, 0), (7, 3), (509, 100)] } else { &[(1, 0), (2, 0), (2, 1), (7, 0), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (7, 6), (61, 0), (61, 10), (61, 20), (61, 30), (61, 40), (61, 50), (509, 0), (509, 100), (509, 200), (509, 300), (509, 400), (4001, 1000), (4001, 2000)] };
        for &(e, p) in plans { st.every = e; st.phase = p; go(&mut st, &|| format!("every {} instructions", e))?; }
        st.every = 0;
        // Where statics change, one interruption right there. Elsewhere it makes no difference where it is.
        for &k in changes.iter().take(if quick { 60 } else { 400 }) { for d in 0..2 { st.exactly = k + d; go(&mut st, &|| format!("instruction {}", k + d))?; } }
        Ok(())
    })();
    println!("{} {} {} {}", steps, sh.runs.load(Relaxed), st.blocked, st.changes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    if r.is_err() { println!("BAD {}", r.as_ref().unwrap_err()); std::process::exit(1); }
    sh.quit.store(1, Relaxed);
    let _ = other.join();
    0
}

// ------------------------------------------------------------------ families
fn spawn(ch: &mut Ch, args: &[String]) -> Result<(u64, u64, Vec<u64>), Viol> {
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("steps").args(args).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("child");
    let t = Instant::now();
    let st = loop {
        heartbeat();
        if let Some(s) = c.try_wait().expect("wait") { break Some(s); }
        if t.elapsed().as_secs() > 240 { let _ = c.kill(); let _ = c.wait(); break None; }
        std::thread::sleep(Duration::from_millis(2));
    };
    let mut out = String::new();
    use std::io::Read;
    if let Some(mut o) = c.stdout.take() { let _ = o.read_to_string(&mut out); }
    // Too slow to tell: no verdict on this case.
    let st = match st { Some(s) => s, None => { ch.execs(1, 0); return Ok((0, 0, vec![])) } };
    if out.starts_with("unavailable") { return Ok((0, 0, vec![])); }
    if let Some(m) = out.lines().find_map(|l| l.strip_prefix("BAD ")) { return viol(m); }
    { use std::os::unix::process::ExitStatusExt; if st.signal() == Some(9) { ch.execs(1, 0); return Ok((0, 0, vec![])); } } // ended from outside
    if !st.success() { return viol(format!("decoding side by side (subjects {} and {}, {}) ended the process: {:?}", args[0], args[1], args[4], st)); }
    let f: Vec<&str> = out.lines().next().unwrap_or("").split(' ').collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse().ok()).unwrap_or(0u64);
    let changes: Vec<u64> = f.get(3).map_or(vec![], |l| l.split(',').filter_map(|x| x.parse().ok()).collect());
    ch.steps(n(0));
    ch.execs(n(1) + 1, n(1) + 1);
    Ok((n(0), n(1), changes))
}
fn pair(ch: &mut Ch) -> (usize, usize, Vec<String>, String) {
    static D: std::sync::OnceLock<Vec<(u64, String)>> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| subjects().iter().map(|s| (digest(&observe(s)), s.what.clone())).collect());
    let i = ch.choose(d.len());
    let j = ch.choose(d.len());
    (i, j, vec![i.to_string(), j.to_string(), d[i].0.to_string(), d[j].0.to_string()], format!("({}) interrupted by ({})", d[i].1, d[j].1))
}
pub fn interrupted(ch: &mut Ch) -> R {
    let (i, j, mut a, what) = pair(ch);
    a.push("warm".into());
    a.push(if ch.quick() { "1" } else { "0" }.into());
    let (n, runs, changes) = spawn(ch, &a)?;
    ch.state(mix(i as u64, j as u64));
    ch.sample(|| format!("{}: {} instructions, {} interruptions, {} changes of statics", what, n, runs, changes.len()));
    Ok(())
}
/// The first two decodings of a process, at every instruction that changes a static.
pub fn first(ch: &mut Ch) -> R {
    let (i, j, mut a, what) = pair(ch);
    a.push("fresh".into());
    a.push("0".into());
    let (n, _, changes) = spawn(ch, &a)?;
    let most = ch.t(6, 100);
    for k in changes.iter().take(most) { for d in 0..2 { a[5] = (k + d).to_string(); spawn(ch, &a)?; } }
    ch.state(mix(i as u64, j as u64));
    ch.sample(|| format!("{} in a new process: {} instructions, {} changes of statics", what, n, changes.len()));
    Ok(())
}
