//! All sequences of iterator calls on every iterator, against the same calls on a list; deep inputs; every character; crowds of readers.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_client::{mb_text, pool, solo, trace, trace_same, SLACK};
use crate::p_meta::*;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::io::{self, Cursor, ErrorKind, Read};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

const NTH: [usize; 12] = [0, 1, 2, 3, 4, 7, 15, 16, 17, 31, 33, usize::MAX];
fn step_names() -> Vec<String> {
    let mut v: Vec<String> = ["next", "take 2", "skip 1, next", "step_by 2, take 2", "find second", "position of third", "any", "take_while", "zip"].iter().map(|s| s.to_string()).collect();
    for k in NTH { v.push(format!("nth({})", k)); }
    v
}
const ENDS: [&str; 13] = ["drop", "collect", "count", "last", "fold", "for_each", "skip(1) collect", "step_by(2) collect", "skip(3) last", "take(5) count", "reduce", "enumerate last", "chain count"];
/// One path: `depth` calls and an ending one. Returns how many items have been taken.
pub fn iter_ops<T: PartialEq + Debug + Clone, A: Iterator>(ch: &mut Ch, what: &str, bytes: &[u8], mut it: A, model: &[T], depth: usize, exact: bool, f: impl Fn(A::Item) -> T) -> Result<usize, Viol> {
    let mut log: Vec<&'static str> = vec![];
    static NAMES: OnceLock<Vec<String>> = OnceLock::new();
    let names = NAMES.get_or_init(step_names);
    let mut m = model.iter().cloned();
    let cnt = |m: &std::iter::Cloned<std::slice::Iter<T>>| m.len();
    for _ in 0..depth {
        let op = ch.choose(names.len());
        log.push(&names[op]);
        ch.steps(1);
        let left = cnt(&m);
        let x: Result<(), String> = nopanic(bytes, || {
            let sh = it.size_hint();
            if sh.0 > left || sh.1.map_or(false, |u| u < left) || exact && sh != (left, Some(left)) { return Err(format!("size hint {:?} with {} left", sh, left)); }
            let (x, y): (Vec<T>, Vec<T>) = match op {
                0 => (it.next().map(&f).into_iter().collect(), m.next().into_iter().collect()),
                1 => (it.by_ref().take(2).map(&f).collect(), m.by_ref().take(2).collect()),
                2 => (it.by_ref().skip(1).next().map(&f).into_iter().collect(), m.by_ref().skip(1).next().into_iter().collect()),
                3 => (it.by_ref().step_by(2).take(2).map(&f).collect(), m.by_ref().step_by(2).take(2).collect()),
                4 => { let (mut i, mut j) = (0, 0); (it.find(|_| { i += 1; i == 2 }).map(&f).into_iter().collect(), m.find(|_| { j += 1; j == 2 }).into_iter().collect()) }
                5 => { let (mut i, mut j) = (0, 0); let (p, q) = (it.position(|_| { i += 1; i == 3 }), m.position(|_| { j += 1; j == 3 })); if p != q { return Err(format!("position {:?}, expected {:?}", p, q)); } (vec![], vec![]) }
                6 => { let (mut i, mut j) = (0, 0); let (p, q) = (it.any(|_| { i += 1; i == 2 }), m.any(|_| { j += 1; j == 2 })); if p != q { return Err(format!("any {:?}, expected {:?}", p, q)); } (vec![], vec![]) }
                7 => { let (mut i, mut j) = (0, 0); (it.by_ref().take_while(|_| { i += 1; i < 3 }).map(&f).collect(), m.by_ref().take_while(|_| { j += 1; j < 3 }).collect()) }
                8 => ((0..1).zip(it.by_ref()).map(|x| f(x.1)).collect(), (0..1).zip(m.by_ref()).map(|x| x.1).collect()),
                _ => { let k = NTH[op - 9]; (it.nth(k).map(&f).into_iter().collect(), m.nth(k).into_iter().collect()) }
            };
            if x != y { return Err(format!("{:?}, expected {:?}", &x[..x.len().min(4)], &y[..y.len().min(4)])); }
            Ok(())
        })?;
        ch.state(mix(hash_bytes(depth as u64, what.as_bytes()), (model.len() * 1000 + cnt(&m)) as u64 * 64 + op as u64));
        if let Err(e) = x { return Err(violb::<()>(format!("{}: calls {:?} with {} of {} items taken: {}", what, log, model.len() - left, model.len(), e), bytes).unwrap_err()); }
    }
    let end = ch.choose(ENDS.len());
    log.push(ENDS[end]);
    let taken = model.len() - cnt(&m);
    let same = nopanic(bytes, || {
        match end {
            0 => true,
            1 => it.map(&f).collect::<Vec<_>>() == m.collect::<Vec<_>>(),
            2 => it.count() == m.count(),
            3 => it.last().map(&f) == m.last(),
            4 => it.fold(vec![], |mut a, x| { a.push(f(x)); a }) == m.fold(vec![], |mut a, x| { a.push(x); a }),
            5 => { let (mut a, mut b) = (vec![], vec![]); it.for_each(|x| a.push(f(x))); m.for_each(|x| b.push(x)); a == b }
            6 => it.skip(1).map(&f).collect::<Vec<_>>() == m.skip(1).collect::<Vec<_>>(),
            7 => it.step_by(2).map(&f).collect::<Vec<_>>() == m.step_by(2).collect::<Vec<_>>(),
            8 => it.skip(3).last().map(&f) == m.skip(3).last(),
            9 => it.take(5).count() == m.take(5).count(),
            10 => it.reduce(|_, x| x).map(&f) == m.reduce(|_, x| x),
            11 => it.enumerate().last().map(|x| (x.0, f(x.1))) == m.enumerate().last(),
            _ => { let n = m.count(); it.map(|_| ()).chain(std::iter::once(())).count() == n + 1 }
        }
    })?;
    if !same { return Err(violb::<()>(format!("{}: the last of calls {:?} with {} of {} items taken gives something else than a list", what, log, taken, model.len()), bytes).unwrap_err()); }
    ch.exec(true);
    ch.sample(|| format!("{}: {:?}", what, log));
    Ok(if end == 0 { taken } else { usize::MAX })
}

fn fr(chan: Chan, n: usize, seed: usize) -> Fr { Fr { chan, bps: 16, pcm: (0..chan.n()).map(|c| wave(n, 14, c, seed)).collect(), subs: vec![sub(Kind::Verbatim)] } }
fn streams() -> &'static [Built] {
    static C: OnceLock<Vec<Built>> = OnceLock::new();
    C.get_or_init(|| {
        let mk = |name: &'static str, n: u32, v: Vec<Fr>| build(name, Info { minb: 16, maxb: 300, ..Info::new(16, n, 16, 0) }, vec![], true, 0, v);
        vec![
            mk("mono 16 + 16", 1, vec![fr(Chan::Ind(1), 16, 1), fr(Chan::Ind(1), 16, 2)]),
            mk("stereo 3 + 1 + 5", 2, vec![fr(Chan::Ind(2), 3, 3), fr(Chan::Ind(2), 1, 4), fr(Chan::MS, 5, 5)]),
            mk("three channels 2 + 4", 3, vec![fr(Chan::Ind(3), 2, 6), fr(Chan::Ind(3), 4, 7)]),
            mk("eight channels 1 + 1 + 2", 8, vec![fr(Chan::Ind(8), 1, 8), fr(Chan::Ind(8), 1, 9), fr(Chan::Ind(8), 2, 10)]),
            mk("mono then stereo", 1, vec![fr(Chan::Ind(1), 4, 11), fr(Chan::LS, 3, 12), fr(Chan::Ind(1), 2, 13)]),
            mk("none", 1, vec![]),
        ]
    })
}
/// C08, C22: sample iterators. `kind` 0: sound; 1: a damaged frame; 2: cut; 3: the source fails.
fn sample_calls(ch: &mut Ch, broken: bool) -> R {
    let s = streams();
    let b = &s[ch.choose(if broken { 5 } else { 6 })];
    let owning = ch.flag();
    let (mut d, mut want): (Vec<u8>, Vec<Result<i32, E>>) = (b.bytes.clone(), b.inter().into_iter().map(Ok).collect());
    let mut fault = None;
    let mut chunk = usize::MAX;
    let mut what = b.name.to_string();
    if broken {
        let j = ch.choose(b.blks.len());
        let kind = ch.choose(4);
        let before: usize = b.blks[..j].iter().map(|x| x.data.len()).sum();
        want.truncate(before);
        let (s, e) = (b.frame_offs[j], b.frame_offs[j + 1]);
        match kind {
            0 => { d[e - 1] ^= 1; want.push(Err(E::Format)); }
            1 => { d.truncate(e - 2); want.push(Err(EOFE)); }
            2 => { chunk = 1; fault = Some(Fault { at: s + 3, kind: ErrorKind::TimedOut, persistent: false, os: false }); want.push(Err(E::Io(ErrorKind::TimedOut))); }
            _ => { let hl = crate::refdec::header(&d[s..e]).map(|h| h.len).unwrap(); d[s + 3] &= 0xf1; let c = crc8(&d[s..s + hl - 1]); d[s + hl - 1] = c; want.push(Err(E::Unsup)); }
        }
        what = format!("{}, frame {} with defect {}", b.name, j, kind);
    }
    let depth = if broken { ch.t(2, 3) } else { ch.t(3, 4) };
    let src = Src::new(&d).chunk(Chunk::Uniform(chunk)).fault(fault);
    let mut r = match nopanic(&d, || FlacReader::new(src))? { Ok(r) => r, Err(e) => return violb(format!("{}: {:?}", what, e), &d) };
    let f = |x: claxon::Result<i32>| x.map_err(|e| ec(&e));
    if owning { iter_ops(ch, &format!("{}, owning iterator", what), &d, r.into_samples(), &want, depth, false, f)?; }
    else { iter_ops(ch, &what, &d, r.samples(), &want, depth, false, f)?; }
    Ok(())
}
pub fn sound_calls(ch: &mut Ch) -> R { sample_calls(ch, false) }
pub fn broken_calls(ch: &mut Ch) -> R { sample_calls(ch, true) }
pub fn stereo_calls(ch: &mut Ch) -> R {
    let n = ch.pick(&[1usize, 2, 5, 17, 34]);
    let pcm = vec![wave(n, 15, 0, n), wave(n, 15, 1, n + 9)];
    let want: Vec<(i32, i32)> = (0..n).map(|i| (pcm[0][i] as i32, pcm[1][i] as i32)).collect();
    let fb = quick_frame(Chan::Ind(2), 16, true, 0, &pcm, &[sub(Kind::Verbatim)]).unwrap();
    let g = nopanic(&fb, || FrameReader::new(SliceRb::new(&fb)).read_next_or_eof(vec![]))?.unwrap().unwrap();
    let depth = ch.t(2, 3);
    iter_ops(ch, &format!("stereo pairs of a block of {}", n), &fb, g.stereo_samples(), &want, depth, false, |x| x)?;
    Ok(())
}
fn tag_sets() -> Vec<Vec<(&'static str, &'static str)>> {
    vec![
        vec![("A", "1"), ("b", ""), ("a", "2"), ("B", "x=y"), ("a", ""), ("A", "3")],
        vec![("A", "1")],
        vec![],
        vec![("x", "1"), ("y", "2"), ("z", "3")],
        vec![("a", ""), ("a", ""), ("a", "last"), ("", "nameless"), ("a", "")],
        (0..40).map(|i| (["a", "A", "other"][i % 3], ["v", "w", "", "\u{e9}"][i % 4])).collect(),
    ]
}
pub fn tag_calls(ch: &mut Ch) -> R {
    let sets = tag_sets();
    let t = &sets[ch.choose(sets.len())];
    let cs: Vec<Vec<u8>> = t.iter().map(|(a, b)| format!("{}={}", a, b).into_bytes()).collect();
    let refs: Vec<&[u8]> = cs.iter().map(|c| &c[..]).collect();
    let b = head(&Info::new(4096, 2, 16, 0), &[(4, vorbis(b"v", &refs))]);
    let rd = match nopanic(&b, || FlacReader::new(&b[..]))? { Ok(r) => r, Err(e) => return violb(format!("construction failed: {:?}", e), &b) };
    let depth = ch.t(2, 3);
    let k = ch.choose(5);
    if k == 0 { iter_ops(ch, &format!("tags {:?}", &t[..t.len().min(6)]), &b, rd.tags(), t, depth, true, |x| x)?; return Ok(()); }
    let needle = ["", "a", "A", "other", "\u{e1}"][k];
    let want: Vec<&str> = t.iter().filter(|x| x.0.eq_ignore_ascii_case(needle)).map(|x| x.1).collect();
    iter_ops(ch, &format!("lookup of {:?} among {:?}", needle, &t[..t.len().min(6)]), &b, rd.get_tag(needle), &want, depth, false, |x| x)?;
    Ok(())
}
struct At(Rc<Cell<usize>>, Vec<u8>);
impl At {
    fn take(&mut self, n: usize) -> Option<&[u8]> { let p = self.0.get(); if n > self.1.len() - p { return None; } self.0.set(p + n); Some(&self.1[p..p + n]) }
}
fn short() -> io::Error { io::Error::new(ErrorKind::UnexpectedEof, "end of input") }
impl ReadBytes for At {
    fn read_u8(&mut self) -> io::Result<u8> { self.take(1).map(|b| b[0]).ok_or_else(short) }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { Ok(self.take(1).map(|b| b[0])) }
    fn read_into(&mut self, buf: &mut [u8]) -> io::Result<()> { let n = buf.len(); let b = self.take(n).ok_or_else(short)?; buf.copy_from_slice(b); Ok(()) }
    fn skip(&mut self, n: u32) -> io::Result<()> { self.take(n as usize).map(|_| ()).ok_or_else(short) }
}
/// C15: block iterators; afterwards the input stands behind the blocks taken.
pub fn block_calls(ch: &mut Ch) -> R {
    let sets: Vec<Vec<(u8, Vec<u8>)>> = vec![
        vec![(0, Info::new(16, 2, 16, 32).bytes()), (1, vec![0; 5]), (4, vorbis(b"v", &[b"a=b"])), (2, b"abcdefg".to_vec()), (6, vec![1; 40]), (99, vec![])],
        vec![(1, vec![]), (1, vec![0; 3000]), (3, vec![0xff; 18]), (5, vec![0x80; 9])],
        vec![(2, b"id__".to_vec())],
        vec![(0, Info::new(16, 2, 16, 32).bytes()), (1, vec![1; 4]), (127, vec![2; 4]), (1, vec![3; 4])],
        vec![(6, vec![0x84; 12]), (4, vorbis(b"v", &[b"no separator"])), (1, vec![3; 4])],
        (0..20).map(|i| ([1u8, 2, 6, 9][i % 4], vec![0x80 | i as u8; 4 + i])).collect(),
    ];
    let i = ch.choose(sets.len());
    let s = &sets[i];
    let cut = ch.flag();
    let mut d = vec![];
    let mut offs = vec![0];
    for (k, (ty, body)) in s.iter().enumerate() { d.extend(block(k == s.len() - 1, *ty, body)); offs.push(d.len()); }
    if cut { d.pop(); } else { d.extend(audio()); d.extend(block(true, 1, &[7; 9])); }
    let mut want: Vec<String> = vec![];
    for k in 0..s.len() {
        let r = if cut && k == s.len() - 1 { Err(claxon::Error::IoError(short())) } else { crate::p_iter::plain(&d[offs[k]..]) };
        let e = r.is_err();
        want.push(text(&r));
        if e { break; }
    }
    let depth = ch.t(2, 3);
    let at = Rc::new(Cell::new(0));
    let it = MetadataBlockReader::new(At(at.clone(), d.clone()));
    let bad = want.last().map_or(false, |w| w.starts_with("error"));
    let n = iter_ops(ch, &format!("metadata blocks {}{}", i, if cut { ", cut" } else { "" }), &d, it, &want, depth, false, |x| text(&x))?;
    if n < want.len() || n == want.len() && !bad { if at.get() != offs[n] { return violb(format!("metadata blocks {}: with {} blocks taken the input stands at {} instead of {}", i, n, at.get(), offs[n]), &d); } }
    else if !bad && at.get() > offs[want.len()] { return violb(format!("metadata blocks {}: {} bytes taken, the blocks have {}", i, at.get(), offs[want.len()]), &d); }
    Ok(())
}
fn text(r: &claxon::Result<MetadataBlock>) -> String { match r { Err(e) => format!("error {:?}", ec(e)), _ => mb_text(r) } }
/// A block as the reference decoder sees it.
fn plain(d: &[u8]) -> claxon::Result<MetadataBlock> { metadata::read_metadata_block_with_header(&mut SliceRb::new(d)) }

// ------------------------------------------------------------------ C02: deep inputs
struct Slow { zero: u64, step: usize, then: &'static [u8] }
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.zero == 0 { let n = b.len().min(self.then.len()).min(self.step); b[..n].copy_from_slice(&self.then[..n]); self.then = &self.then[n..]; return Ok(n); }
        let n = (b.len().min(self.step) as u64).min(self.zero) as usize;
        for x in &mut b[..n] { *x = 0; }
        self.zero -= n as u64;
        if self.zero & 0xfffff == 0 { heartbeat(); }
        Ok(n)
    }
}
/// Calls that take very many reads, repetitions or items: none may exhaust the stack.
pub fn deep(ch: &mut Ch) -> R {
    let kind = ch.choose(9);
    let step = ch.pick(&[1usize, 7, 4096]);
    let n: u32 = if kind < 5 { ch.pick(&[1u32 << 16, 1 << 20, 0xff_ffff]) } else { ch.pick(&[10_000u32, 300_000, 2_621_430]) };
    let what = || format!("kind {} with {} in pieces of {}", kind, n, step);
    ch.exec(true);
    ch.state(mix(kind as u64, mix(n as u64, step as u64)));
    let src = |then: &'static [u8]| BufferedReader::new(Slow { zero: n as u64, step, then });
    match kind {
        0 => { let mut r = src(&[9]); let x = nopanic(&[], || r.skip(n).map(|_| r.read_u8().ok()).ok())?; if x != Some(Some(9)) { return viol(format!("{}: skip gave {:?}", what(), x)); } }
        1 => { let mut r = src(&[9]); let mut v = vec![1; n as usize]; let x = nopanic(&[], || r.read_into(&mut v).map(|_| r.read_u8().ok()).ok())?; if x != Some(Some(9)) || v.iter().any(|&x| x != 0) { return viol(format!("{}: read_into gave {:?}", what(), x)); } }
        2 => { let mut r = claxon::input::Bitstream::new(src(&[0x10])); let x = nopanic(&[], || r.read_unary().ok())?; if x != Some(n * 8 + 3) { return viol(format!("{}: read_unary gave {:?}", what(), x)); } }
        3 => { let ty = [1u8, 3, 5, 6, 77][ch.choose(5)]; let mut r = src(&[9]); let x = nopanic(&[], || metadata::read_metadata_block(&mut r, ty, n).is_ok() && r.read_u8().ok() == Some(9))?; if !x { return viol(format!("{}: block of type {}", what(), ty)); } }
        4 => { let n = n.min(10 << 20); let mut r = BufferedReader::new(Slow { zero: n as u64, step, then: &[9] }); let x = nopanic(&[], || metadata::read_metadata_block(&mut r, 2, n).is_ok() && r.read_u8().ok() == Some(9))?; if !x { return viol(format!("{}: application block", what())); } }
        _ => {
            // Comments: all empty, empty ones before the last, all alike, the count one too many.
            let k = n.min(if kind == 7 { 1_700_000 } else { u32::MAX });
            let mut b = vec![0, 0, 0, 0];
            let count = match kind { 6 => k + 1, 8 => k.wrapping_add(1 << 31), _ => k };
            b.extend(count.to_le_bytes());
            match kind { 7 => for _ in 0..k { b.extend([2, 0, 0, 0, b'a', b'=']); }, _ => b.resize(8 + 4 * k as usize, 0) }
            if kind == 6 { b.truncate(b.len() - 4 * 1); b.extend([2, 0, 0, 0, b'a', b'=']); let c = k; b[4..8].copy_from_slice(&c.to_le_bytes()); }
            if b.len() > 10 << 20 { let l = (10 << 20) & !3; b.truncate(l); return Ok(()); }
            let l = b.len() as u32;
            let x = nopanic(&[], || metadata::read_metadata_block(&mut BufferedReader::new(Src::new(&b).chunk(Chunk::Uniform(if step == 1 { 61 } else { step }))), 4, l).map(|m| match m { MetadataBlock::VorbisComment(v) => v.comments.len(), _ => 77 }).map_err(|e| ec(&e)))?;
            let want = match kind { 5 => Ok(0), 6 => Ok(1), 7 => Ok(k as usize), _ => Err(E::Format) };
            if x != want { return viol(format!("{}: comments gave {:?}, expected {:?}", what(), x, want)); }
            if kind == 7 || kind == 6 {
                let f = head(&Info::new(4096, 2, 16, 0), &[(4, b)]);
                let y = nopanic(&[], || FlacReader::new(&f[..]).map(|r| (r.get_tag("b").count(), r.get_tag("A").count(), r.get_tag("none").next().is_some(), r.tags().last() == Some(("a", "")))).map_err(|e| ec(&e)))?;
                if y != Ok((0, want.unwrap(), false, true)) { return viol(format!("{}: lookups gave {:?}", what(), y)); }
            }
        }
    }
    heartbeat();
    ch.sample(what);
    Ok(())
}

// ------------------------------------------------------------------ C13, C14: every character
const SCALARS: u32 = 0x11_0000 - 0x800;
fn scalar(i: u32) -> char { char::from_u32(if i < 0xd800 { i } else { i + 0x800 }).unwrap() }
/// Every Unicode scalar value at the beginning, in the middle, at the end and alone.
pub fn characters(ch: &mut Ch) -> R {
    let per = 2048;
    let part = ch.choose(((SCALARS + per - 1) / per) as usize) as u32;
    let range: Vec<char> = (part * per..((part + 1) * per).min(SCALARS)).map(scalar).collect();
    let mut want: Vec<(String, usize)> = vec![];
    for &c in &range { want.push((format!("T={}v{}w{}", c, c, c), 1)); want.push((format!("u={}", c), 1)); }
    let refs: Vec<&[u8]> = want.iter().map(|c| c.0.as_bytes()).collect();
    let vendor: String = range.iter().collect();
    for (vendor, comments) in [(vendor, &refs[..]), (format!("{}x{}", range[0], range[range.len() - 1]), &[][..]), (range[range.len() / 2].to_string(), &refs[..1])] {
        let b = vorbis(vendor.as_bytes(), comments);
        match nopanic(&b[..64.min(b.len())], || metadata::read_metadata_block(&mut Cursor::new(&b[..]), 4, b.len() as u32))? {
            Ok(MetadataBlock::VorbisComment(v)) => {
                if v.vendor != vendor { return violb(format!("vendor string of characters from U+{:04X} on changed", range[0] as u32), &b[..64.min(b.len())]); }
                if v.comments.len() != comments.len() { return violb(format!("comments with characters from U+{:04X} on: {} of {}", range[0] as u32, v.comments.len(), comments.len()), &b[..64]); }
                for (i, c) in v.comments.iter().enumerate() { if *c != want[i] { return violb(format!("comment {:?} reported as {:?}", want[i], c), want[i].0.as_bytes()); } }
            }
            _ => return violb(format!("comments with characters from U+{:04X} on rejected", range[0] as u32), &b[..64.min(b.len())]),
        }
    }
    // One vendor string per character.
    for &c in &range {
        let s = c.to_string();
        let b = vorbis(s.as_bytes(), &[]);
        match nopanic(&b, || metadata::read_metadata_block(&mut Cursor::new(&b[..]), 4, b.len() as u32))? { Ok(MetadataBlock::VorbisComment(ref v)) if v.vendor == s && v.comments.is_empty() => {} _ => return violb(format!("vendor string {:?} changed", s), &b) }
    }
    ch.execs(range.len() as u64 + 3, range.len() as u64 + 3);
    ch.state(part as u64);
    ch.sample(|| format!("comments and vendor strings with U+{:04X} to U+{:04X}", range[0] as u32, range[range.len() - 1] as u32));
    heartbeat();
    Ok(())
}
/// Every Unicode scalar value as a tag to look up, against all one and two letter names.
pub fn lookups(ch: &mut Ch) -> R {
    static F: OnceLock<Vec<u8>> = OnceLock::new();
    let names: Vec<String> = (0x20u8..=0x7d).filter(|&c| c != b'=').map(|c| (c as char).to_string()).collect();
    let f = F.get_or_init(|| {
        let mut cs: Vec<Vec<u8>> = vec![];
        for n in &names { cs.push(format!("{}={}", n, n).into_bytes()); cs.push(format!("{}{}=2{}", n, n, n).into_bytes()); cs.push(format!("k{}=3{}", n, n).into_bytes()); }
        cs.push(b"=empty".to_vec());
        let refs: Vec<&[u8]> = cs.iter().map(|c| &c[..]).collect();
        head(&Info::new(4096, 2, 16, 0), &[(4, vorbis(b"v", &refs))])
    });
    let per = 4096;
    let part = ch.choose(((SCALARS + per - 1) / per) as usize) as u32;
    let r = match nopanic(f, || FlacReader::new(&f[..]))? { Ok(r) => r, Err(e) => return violb(format!("{:?}", e), f) };
    for i in part * per..((part + 1) * per).min(SCALARS) {
        let c = scalar(i);
        for form in 0..3 {
            let needle = match form { 0 => c.to_string(), 1 => format!("{}{}", c, c), _ => format!("K{}", c) };
            let mut want: Vec<String> = vec![];
            if c.is_ascii() && c != '=' { for n in &names {
                let same = |a: &str| a.eq_ignore_ascii_case(&needle);
                if same(n) { want.push(n.clone()); }
                if same(&format!("{}{}", n, n)) { want.push(format!("2{}", n)); }
                if same(&format!("k{}", n)) { want.push(format!("3{}", n)); }
            } }
            let got = nopanic(f, || { let mut it = r.get_tag(&needle); let mut k = 0; while let Some(v) = it.next() { if want.get(k).map(|s| &s[..]) != Some(v) { return Some(v.to_string()); } k += 1; } if k == want.len() { None } else { Some("the end".into()) } })?;
            if let Some(g) = got { return violb(format!("looking up {:?}: {:?} among the values, expected {:?}", needle, g, want), needle.as_bytes()); }
        }
    }
    ch.execs(3 * per as u64, if part == 0 { 3 * 128 } else { 0 });
    ch.exec(true);
    ch.state(part as u64);
    ch.sample(|| format!("lookup of U+{:04X} and the {} following", scalar(part * per) as u32, per - 1));
    heartbeat();
    Ok(())
}

// ------------------------------------------------------------------ C17: buffers that are too small
pub fn growing(ch: &mut Ch) -> R {
    let bs = ch.pick(&[1usize, 16, 192, 256, 1000, 4096, 4608, 40_000, 65_535]);
    let n = ch.pick(&[1u8, 2, 3, 8]);
    let need = bs * n as usize;
    let cap = ch.pick(&[1usize, 2, need / 100, need / 8, need / 4, need / 2, need - need / 4, need.saturating_sub(2), need.saturating_sub(1)]);
    if cap == 0 || cap >= need { return Ok(()); }
    let h = Hdr::new(bs, Chan::Ind(n), 16, true, 0); let mut d = h.bytes(); for _ in 0..n { d.extend([0, 1, 2]); } let c = crc16(&d); d.extend(c.to_be_bytes());
    for len in [0, 1, cap / 2, cap] {
        let mut buf: Vec<i32> = Vec::with_capacity(cap); buf.resize(len.min(cap), 7);
        let have = buf.capacity();
        let (r, m) = nopanic(&d, || measure(|| FrameReader::new(SliceRb::new(&d)).read_next_or_eof(buf).map(|b| b.map(|b| b.into_buffer()))))?;
        // A vector that is grown in place may take twice what it had, and never takes room for less than four.
        let room = need.max(2 * have).max(4);
        match r { Ok(Some(v)) => if v[..need].iter().any(|&x| x != 0x102) { return violb("samples", &d); } else if v.capacity() > room { return violb(format!("block of {} samples returned in a buffer for {}, recycled one had {}", need, v.capacity(), have), &d); }, _ => return violb("constant frame rejected", &d) }
        if m.peak > room as u64 * 4 + SLACK { return violb(format!("{} bytes allocated for {} samples with a recycled buffer for {}", m.peak, need, have), &d); }
        ch.exec(true);
    }
    ch.state(mix(need as u64, cap as u64));
    ch.sample(|| format!("block of {} x {} into a buffer with room for {}", n, bs, cap));
    Ok(())
}

/// Recycled buffers that are larger than needed, up to a hundred thousand times, however full: nothing is allocated.
pub fn oversized(ch: &mut Ch) -> R {
    let bs = ch.pick(&[1usize, 2, 16, 192, 256, 1000, 1025, 4096, 4608, 40_000, 65_535]);
    let n = ch.pick(&[1u8, 2, 3, 8]);
    let need = bs * n as usize;
    let kind = ch.choose(3); // constant frame; the same cut short; without a frame
    let factor = ch.pick(&[1usize, 2, 3, 4, 5, 8, 9, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 256, 257, 1000, 1024, 4096, 10_000, 65_537, 100_000]);
    let h = Hdr::new(bs, Chan::Ind(n), 16, true, 0); let mut d = h.bytes(); for _ in 0..n { d.extend([0, 1, 2]); } let c = crc16(&d); d.extend(c.to_be_bytes());
    match kind { 1 => d.truncate(d.len() - 3), 2 => d.clear(), _ => {} }
    for cap in [need * factor, need * factor + 1, need * factor + need / 2] {
        if cap > 1 << 26 { continue; }
        for fill in [0, 1, need - 1, need, need + 1, cap / 2, cap] {
            if fill > cap || (fill > 1 << 20 && ch.quick()) { continue; }
            let mut buf: Vec<i32> = Vec::with_capacity(cap); buf.resize(fill, 7);
            let have = buf.capacity();
            let (r, m) = nopanic(&d, || measure(|| FrameReader::new(SliceRb::new(&d)).read_next_or_eof(buf).map(|b| b.map(|b| b.into_buffer()))))?;
            let lim = if kind == 1 { SLACK } else { 0 };
            if m.total > lim { return violb(format!("{} bytes allocated for a block of {} samples though the recycled buffer had room for {} and held {}", m.total, need, have, fill), &d); }
            match r { Ok(Some(v)) if kind == 0 => if v.len() < need || v[..need].iter().any(|&x| x != 0x102) { return violb("samples", &d); }, Err(_) if kind == 1 => {} Ok(None) if kind == 2 => {} _ => return violb(format!("unexpected outcome with a buffer for {} samples", have), &d) }
            ch.exec(true);
        }
        heartbeat();
    }
    ch.state(mix(need as u64, (factor * 3 + kind) as u64));
    ch.sample(|| format!("block of {} x {} into a buffer {} times too large", n, bs, factor));
    Ok(())
}

// ------------------------------------------------------------------ C20: many at once
struct Deep<'a> { s: Src, n: usize, at: usize, f: &'a dyn Fn() }
impl<'a> Read for Deep<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.n == self.at { (self.f)(); } self.n += 1; self.s.read(b) } }
fn level(k: usize, a: usize, mode: usize, at: usize, chunk: usize, out: &RefCell<Vec<(usize, usize, Result<crate::p_client::Trace, String>)>>) {
    let p = pool();
    let i = (a + 5 * k) % p.len();
    let m = (mode + k) % 4;
    let inner = || if k > 0 { level(k - 1, a, mode, at, chunk, out) };
    let t = guard(|| trace(Deep { s: Src::new(&p[i].1).chunk(Chunk::Uniform(chunk)), n: 0, at, f: &inner }, m));
    out.borrow_mut().push((i, m, t));
}
/// Decoders inside the reads of decoders inside the reads of decoders.
pub fn depth(ch: &mut Ch) -> R {
    let k = ch.pick(&[2usize, 3, 4, 5, 8, 16, 40]);
    let a = ch.choose(pool().len());
    let mode = ch.choose(4);
    let chunk = ch.pick(&[3usize, 30, 2000]);
    let n = pool()[a].1.len() / chunk;
    for at in [0, 1, n / 3, n / 2, n.saturating_sub(1)] {
        let out = RefCell::new(vec![]);
        level(k, a, mode, at, chunk, &out);
        for (i, m, t) in out.into_inner() {
            let how = || format!("decoders nested {} deep, in read {} of pieces of {}", k, at, chunk);
            match t { Ok(t) => trace_same(&t, i, m, &how)?, Err(e) => return violb(format!("{}: panicked: {}", how(), e), &pool()[i].1) }
            ch.exec(true);
        }
    }
    ch.state(mix(mix(k as u64, a as u64), mix(mode as u64, chunk as u64)));
    ch.sample(|| format!("{} and others nested {} deep", pool()[a].0, k));
    heartbeat();
    Ok(())
}
/// Many readers alive at the same time, used in turn.
pub fn crowd(ch: &mut Ch) -> R {
    let n = ch.pick(&[3usize, 16, 17, 64, 65, 255, 256, 257, 1000, 1025, 5000]);
    let order = ch.choose(3);
    let c = corpus();
    let mut rs = vec![];
    for i in 0..n {
        let b = &c[i % c.len()];
        match nopanic(&b.bytes, || FlacReader::new(Src::new(&b.bytes).chunk(Chunk::Uniform(50 + i % 7))))? { Ok(r) => rs.push((i, r)), Err(e) => return violb(format!("reader {} of {}: {:?}", i, n, e), &b.bytes) }
    }
    let rounds = c.iter().map(|b| b.blks.len()).max().unwrap() + 1;
    for k in 0..rounds {
        if order == 1 { rs.reverse(); }
        if order == 2 && k == 1 { let h = rs.len() / 2; rs.drain(..h); }
        for (i, r) in rs.iter_mut() {
            let b = &c[*i % c.len()];
            let got = nopanic(&b.bytes, || next(&mut r.blocks(), vec![]))?;
            let want = if k < b.blks.len() { Ob::Blk(b.blks[k].clone()) } else { Ob::End };
            if got != want && !(k >= b.blks.len()) { return violb(format!("{} readers at a time, call {} of reader {}: {}", n, k, i, show(&[got])), &b.bytes); }
            ch.exec(true);
        }
        heartbeat();
    }
    ch.state(mix(n as u64, order as u64));
    ch.sample(|| format!("{} readers used in turn", n));
    Ok(())
}
/// As many threads, all within a read of the source at the same time.
struct Meet { s: Src, n: usize, at: usize, gate: Arc<(Mutex<usize>, Condvar, usize)> }
impl Read for Meet {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.n == self.at {
            let mut g = self.gate.0.lock().unwrap();
            *g += 1;
            self.gate.1.notify_all();
            let t = std::time::Instant::now();
            while *g < self.gate.2 && t.elapsed().as_secs() < 20 { g = self.gate.1.wait_timeout(g, std::time::Duration::from_millis(50)).unwrap().0; }
        }
        self.n += 1;
        self.s.read(b)
    }
}
pub fn together(ch: &mut Ch) -> R {
    let n = ch.pick(&[2usize, 3, 4, 8, 9, 16, 33, 64, 130]);
    let a = ch.choose(pool().len());
    let at = ch.pick(&[0usize, 1, 2, 3]);
    let mode = ch.choose(4);
    let p = pool();
    for k in 0..4 { for i in 0..p.len() { let _ = solo(i, k); } }
    let gate = Arc::new((Mutex::new(0), Condvar::new(), n));
    let rs: Vec<(usize, Result<crate::p_client::Trace, String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|t| { let gate = gate.clone(); let i = (a + t) % p.len(); s.spawn(move || {
            let r = guard(|| trace(Meet { s: Src::new(&p[i].1).chunk(Chunk::Uniform(p[i].1.len() / 5 + 1)), n: 0, at, gate: gate.clone() }, mode));
            // A reader that did not get that far keeps nobody waiting.
            *gate.0.lock().unwrap() += 1; gate.1.notify_all();
            (i, r) }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, t) in rs {
        let how = || format!("{} threads that meet in read {}", n, at);
        match t { Ok(t) => trace_same(&t, i, mode, &how)?, Err(e) => return violb(format!("{}: panicked: {}", how(), e), &p[i].1) }
        ch.exec(true);
    }
    ch.state(mix(mix(n as u64, a as u64), mix(mode as u64, at as u64)));
    ch.sample(|| format!("{} threads that meet in read {}", n, at));
    heartbeat();
    Ok(())
}
