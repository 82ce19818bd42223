mod common;
mod enc;
mod engine;
mod refdec;
mod src;
mod p_bits;
mod p_client;
mod p_code;
mod p_real;
mod p_junk;
mod p_decode;
mod p_bytes;
mod p_far;
mod p_fill;
mod p_fault;
mod p_frame;
mod p_hist;
mod p_iter;
mod p_meta;
mod p_more;
mod p_pool;
mod p_steps;
mod p_twise;

use engine::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static A: Alloc = Alloc;

fn props() -> Vec<Prop> { vec![p_decode::c01(), p_frame::c02(), p_frame::c03(), p_fault::c04(), p_fault::c05(), p_fault::c06(), p_client::c07(), p_client::c08(), p_frame::c09(), p_frame::c10(), p_frame::c11(), p_meta::c12(), p_meta::c13(), p_meta::c14(), p_meta::c15(), p_meta::c16(), p_client::c17(), p_bits::c18(), p_bytes::c19(), p_client::c20(), p_client::c21(), p_fault::c22()] }

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String { format!("[{}]", v.join(", ")) }
fn tier_name(t: Tier) -> &'static str { if t == Tier::Quick { "quick" } else { "thorough" } }

/// Fingerprints of known findings of a property, from known_findings.jsonl.
fn known(root: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{}/known_findings.jsonl", root)).unwrap_or_default().lines() {
        let get = |k: &str| -> Option<String> {
            let i = l.find(&format!("\"{}\":", k))? + k.len() + 3;
            let s = l[i..].trim_start().strip_prefix('"')?;
            Some(s[..s.find('"')?].to_string())
        };
        if get("status").as_deref() == Some("open") && get("property").as_deref() == Some(id) {
            if let (Some(f), Some(w)) = (get("fingerprint"), get("what")) { v.push((f, w)); }
        }
    }
    v
}

fn write_replay(root: &str, id: &str, tier: Tier, fam: &str, choices: &[u32], msg: &str, bytes: &[u8]) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let mut hsh = hash_bytes(7, fam.as_bytes());
    for &x in choices { hsh = mix(hsh, x as u64); }
    let p = format!("{}/{}-{}-{:08x}.txt", dir, id, fam, hsh as u32);
    let mut f = std::fs::File::create(&p).expect("replay file");
    let _ = write!(f, "property {}\ntier {}\nfamily {}\nchoices {}\nmessage {}\nbytes {}\n", id, tier_name(tier), fam, c.join(" "), msg.replace('\n', " "), common::hex(&bytes[..bytes.len().min(1 << 20)]));
    p
}

fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, NT_MAX) }

/// The exploring process: prints one report line per finding, writes evidence; exit 0/1/2.
fn worker(root: &str, p: &Prop, tier: Tier, slots: &str, only: Option<&str>) -> i32 {
    install_hook();
    limit_memory(24 << 30);
    let t0 = Instant::now();
    let kn = known(root, p.id);
    let k2 = kn.clone();
    let is_known = move |v: &Viol| !v.fingerprint.is_empty() && k2.iter().any(|(f, _)| *f == v.fingerprint);
    let mut fams: Vec<Family> = vec![];
    for f in &p.families { if only.map_or(true, |o| f.name.starts_with(o)) { fams.push(Family { name: f.name, bound: f.bound, body: f.body, tiers: f.tiers }); } }
    // Families whose decoders run in processes of their own come first: they judge what is shared between threads
    // while no other thread of this process decodes.
    SHARED_STATE.store(p.id == "C20", std::sync::atomic::Ordering::Relaxed);
    let alone = fams.iter().filter(|f| f.name.starts_with("instructions")).count();
    let sl = Slots::open(slots);
    let mut o = explore(&fams[..alone], tier, threads(), sl, &is_known);
    if alone < fams.len() && o.found.is_empty() && o.engine_error.is_none() {
        let mut rest = explore_from(&fams, alone, tier, threads(), sl, &is_known);
        for (i, s) in o.stats.iter().enumerate() { rest.stats[i] = s.clone(); }
        rest.known.extend(o.known);
        o = rest;
    }
    o.stats.resize(fams.len(), FamStat::default());
    if let Some(e) = o.engine_error { println!("ENGINE-ERROR {}", e); return 2; }
    let wall = t0.elapsed().as_secs_f64();
    let (mut st, mut tr, mut ex, mut nt, mut lv) = (0, 0, 0, 0, 0);
    let mut samples = vec![];
    let mut fj = vec![];
    for (f, s) in fams.iter().zip(&o.stats) {
        if !f.tiers.contains(&tier) { continue; }
        st += s.states; tr += s.trans; ex += s.execs; nt += s.nontrivial; lv += s.leaves;
        for x in s.samples.iter().rev().take(3) { samples.push(jstr(&format!("{}: {}", f.name, x))); }
        fj.push(format!("{{\"name\": {}, \"bound\": {}, \"paths\": {}, \"executions\": {}, \"nontrivial\": {}, \"states\": {}{}, \"transitions\": {}, \"max_depth\": {}, \"cpu_ms\": {}}}",
            jstr(f.name), jstr(f.bound), s.leaves, s.execs, s.nontrivial, s.states, if s.capped { ", \"state_count_is_lower_bound\": true" } else { "" }, s.trans, s.maxdepth, s.wall_ms));
        eprintln!("  {:<28} paths {:>10} execs {:>11} states {:>9} trans {:>11} depth {:>4} cpu {:>7} ms", f.name, s.leaves, s.execs, s.states, s.trans, s.maxdepth, s.wall_ms);
    }
    eprintln!("  {} {}: {} executions, {} states, {:.1} s", p.id, tier_name(tier), ex, st, wall);
    let complete = o.found.is_empty();
    if only.is_none() {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
        let counts = if p.level == "model_checking" { format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}", st, tr, ex) }
            else { format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"transitions\": {}", ex, nt.min(st), tr) };
        let ev = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  {}, \"paths\": {}, \"exhaustive\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"families\": [\n   {}\n  ]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}, \"known_findings\": {}\n}}\n",
            jstr(p.id), jstr(tier_name(tier)), seed, jstr(p.level), counts, lv, complete, jstr(p.rule), samples.join(",\n   "), fj.join(",\n   "),
            jarr(&p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>()), wall, o.found.len(), o.known.len());
        std::fs::create_dir_all(format!("{}/evidence", root)).unwrap();
        std::fs::write(format!("{}/evidence/{}.json", root, p.id), ev).unwrap();
    }
    for (f, w) in &kn { if o.known.iter().any(|k| k.viol.fingerprint == *f) { println!("KNOWN-FINDING: property={} {}", p.id, w); } }
    for (i, v) in o.found.iter().enumerate() {
        if i >= 3 { break; }
        let path = write_replay(root, p.id, tier, fams[v.fam].name, &v.choices, &v.viol.msg, &v.viol.bytes);
        println!("family {} choices {:?}{}: {}", fams[v.fam].name, v.choices, if v.reproduced { "" } else { " (did not recur on immediate re-execution)" }, v.viol.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if o.found.is_empty() { 0 } else { 1 }
}

fn replay_in_child(exe: &str, root: &str, id: &str, tier: Tier, fam: &str, choices: &[u32], secs: u64) -> Result<i32, &'static str> {
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let mut ch = Command::new(exe).args(["one", root, id, tier_name(tier), fam, &c.join(" ")]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|_| "spawn")?;
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() { return s.code().ok_or("killed by a signal"); }
        if t0.elapsed().as_secs() > secs { let _ = ch.kill(); let _ = ch.wait(); return Err("does not terminate"); }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn run(root: &str, p: &Prop, tier: Tier, only: Option<&str>) -> i32 {
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let slots = format!("{}/mc/target/slots-{}-{}", root, p.id, std::process::id());
    let _ = std::fs::remove_file(&slots);
    let sl = Slots::open(&slots);
    let mut args = vec!["worker".to_string(), root.to_string(), p.id.to_string(), tier_name(tier).to_string(), slots.clone()];
    if let Some(o) = only { args.push(o.into()); }
    let mut ch = Command::new(&exe).args(&args).spawn().expect("spawn worker");
    let stall = 60u64;
    let mut last: Vec<(u32, Instant)> = (0..NT_MAX).map(|t| (sl.beat(t).0, Instant::now())).collect();
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() { break Some(s); }
        for t in 0..NT_MAX {
            let (b, busy) = sl.beat(t);
            if b != last[t].0 || !busy { last[t] = (b, Instant::now()); }
            else if last[t].1.elapsed().as_secs() > stall { hung = Some(t); }
        }
        if hung.is_some() { break None; }
        std::thread::sleep(Duration::from_millis(25));
    };
    let code = match status { Some(s) => s.code(), None => None };
    let r = match code {
        Some(c @ (0..=2)) => c,
        _ => {
            if hung.is_some() { let _ = ch.kill(); let _ = ch.wait(); }
            // The exploring process died or is stuck: find the case that does it.
            let mut rc = 2;
            let order: Vec<usize> = hung.into_iter().chain(0..NT_MAX).collect();
            // The worker may have been given a subset of families.
            let fams: Vec<&Family> = p.families.iter().filter(|f| only.map_or(true, |o| f.name.starts_with(o))).collect();
            for t in order {
                if let Some((f, choices)) = sl.current(t) {
                    let name = fams[f].name;
                    let why = match replay_in_child(&exe, root, p.id, tier, name, &choices, 240) {
                        Ok(0) => continue,
                        Ok(1) => "violation".to_string(),
                        Ok(c) if c < 128 && c != 101 && c != 134 => { println!("replay of {} {:?} gave exit {}", name, choices, c); continue }
                        Ok(c) => format!("the process ended abnormally (exit {})", c),
                        Err(w) => format!("the code under test brought the process down or hung: {}", w),
                    };
                    let path = write_replay(root, p.id, tier, name, &choices, &why, &[]);
                    println!("family {} choices {:?}: {}", name, choices, why);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    rc = 1;
                    break;
                }
            }
            if rc == 2 { println!("ENGINE-ERROR worker ended with {:?} and no case reproduces it", status); }
            rc
        }
    };
    let _ = std::fs::remove_file(&slots);
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let ps = props();
    let find = |id: &str| -> usize { ps.iter().position(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) }) };
    let rc = match cmd {
        "run" => run(&a[2], &ps[find(&a[3])], tier_of(&a[4]), a.get(5).map(|s| s.as_str())),
        "worker" => worker(&a[2], &ps[find(&a[3])], tier_of(&a[4]), &a[5], a.get(6).map(|s| s.as_str())),
        "one" => {
            install_hook();
            limit_memory(12 << 30);
            let p = &ps[find(&a[3])];
            let f = p.families.iter().find(|f| f.name == a[5]).expect("family");
            let c: Vec<u32> = a[6].split_whitespace().map(|x| x.parse().unwrap()).collect();
            match run_one(f, tier_of(&a[4]), &c, true).0 { Ok(()) => 0, Err(v) => { println!("{}", v.msg); println!("bytes {}", common::hex(&v.bytes)); 1 } }
        }
        "replay" => {
            let s = std::fs::read_to_string(&a[3]).expect("replay file");
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let exe = std::env::current_exe().unwrap();
            Command::new(exe).args(["one", &a[2], &get("property "), &get("tier "), &get("family "), &get("choices")]).status().unwrap().code().unwrap_or(134)
        }
        "steps" => p_steps::child(&a[2..]),
        "list" => { for p in &ps { println!("{}", p.id); for f in &p.families { println!("  {:<28} {}", f.name, f.bound); } } 0 }
        _ => { eprintln!("usage: mc run ROOT ID TIER [FAMILY] | replay ROOT FILE | list"); 2 }
    };
    std::process::exit(rc);
}
