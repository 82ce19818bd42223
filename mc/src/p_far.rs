//! Beyond 2^31 and 2^32: bytes, bits, samples, positions of cursors.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_bytes::{apply, width, Op, Out};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{self, Cursor, Read};
use std::sync::OnceLock;

const PERIOD: usize = 4099;
fn table() -> &'static [u8] {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| { let p: Vec<u8> = (0..PERIOD).map(|i| (mix(0x51, i as u64) >> 24) as u8).collect(); p.iter().chain(&p).cloned().collect() })
}
fn at(p: u64) -> u8 { table()[(p % PERIOD as u64) as usize] }
fn want(p: u64, end: u64, o: Op) -> Option<Out> {
    let n = width(o) as u64;
    if p > end || n > end - p { return None; }
    if let Op::Skip(_) = o { return Some(Out::Unit); }
    let b: Vec<u8> = (p..p + n).map(at).collect();
    let be = b.iter().take(8).fold(0u64, |a, &x| a << 8 | x as u64);
    Some(match o { Op::Le32 => Out::Num(b.iter().rev().fold(0u64, |a, &x| a << 8 | x as u64)), Op::Into(_) => Out::Bytes(b), _ => Out::Num(be) })
}
/// The table over and over, `left` bytes of it.
struct Rep { phase: usize, left: u64, beat: u32 }
impl Rep { fn new(left: u64) -> Rep { Rep { phase: 0, left, beat: 0 } } }
impl Read for Rep {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len().min(PERIOD) as u64).min(self.left) as usize;
        b[..n].copy_from_slice(&table()[self.phase..self.phase + n]);
        self.phase = (self.phase + n) % PERIOD;
        self.left -= n as u64;
        self.beat = self.beat.wrapping_add(1);
        if self.beat & 0xffff == 0 { heartbeat(); }
        Ok(n)
    }
}
const NEAR: [Op; 17] = [Op::U8, Op::Be16, Op::Le32, Op::Skip(1), Op::Into(5), Op::Be24, Op::U8e, Op::Be32, Op::Skip(3), Op::Be16e, Op::Into(1), Op::Skip(0), Op::Into(0), Op::Into(3), Op::Skip(2), Op::Into(2), Op::Skip(5)];
/// Buffered readers: the calls after 2^31 and 2^32 bytes.
pub fn buffered(ch: &mut Ch) -> R {
    let skips: &[u32] = [&[0xffff_ffff][..], &[0x7fff_ffff, 0x8000_0000], &[0x7fff_fffd], &[0xffff_fff0, 0xffff_fff0], &[0x4000_0000, 0xbfff_ffef]][ch.choose(5)];
    let rot = ch.choose(NEAR.len());
    let mut p: u64 = 0;
    let end = skips.iter().map(|&x| x as u64).sum::<u64>() + 60;
    let mut r = BufferedReader::new(Rep::new(end));
    let how = |p: u64| format!("buffered reader that skipped {:?}, then the calls from number {} on, at byte {}", skips, rot, p);
    for &s in skips { if nopanic(&[], || r.skip(s).is_err())? { return viol(format!("{}: skip failed", how(p))); } p += s as u64; }
    for k in 0.. {
        let o = NEAR[(rot + k) % NEAR.len()];
        let w = want(p, end, o);
        let g = nopanic(&[], || if rot % 2 == 0 { apply(&mut r, o).ok() } else { apply(&mut &mut r, o).ok() })?;
        let g = if g == Some(Out::None) { None } else { g };
        if g != w { return viol(format!("{}: {:?} gave {:?}, expected {:?}", how(p), o, g, w)); }
        ch.steps(1);
        ch.state(mix(p, k as u64));
        if w.is_none() { break; }
        p += width(o) as u64;
    }
    ch.exec(true);
    ch.sample(|| how(p));
    Ok(())
}
/// One kind of call only, up to 2^32 bytes and beyond.
pub fn one_kind(ch: &mut Ch) -> R {
    let kind = ch.choose(ch.t(2, 5));
    let total = (1u64 << 32) + 5000;
    let mut r = BufferedReader::new(Rep::new(total));
    let mut p = 0u64;
    let mut v = vec![0u8; if kind == 0 { 60_000 } else { 9_973 }];
    let bad = nopanic(&[], || -> Option<u64> {
        match kind {
            0 | 1 => while p < total { let n = (v.len() as u64).min(total - p) as usize; if r.read_into(&mut v[..n]).is_err() || v[0] != at(p) || v[n - 1] != at(p + n as u64 - 1) { return Some(p); } p += n as u64; heartbeat(); },
            2 => while p < total { if r.read_u8().ok() != Some(at(p)) { return Some(p); } p += 1; if p & 0xffffff == 0 { heartbeat(); } },
            3 => while p < total { if r.read_u8_or_eof().ok() != Some(Some(at(p))) { return Some(p); } p += 1; if p & 0xffffff == 0 { heartbeat(); } },
            _ => while p + 4 <= total { if r.read_be_u32().ok() != Some((at(p) as u32) << 24 | (at(p + 1) as u32) << 16 | (at(p + 2) as u32) << 8 | at(p + 3) as u32) { return Some(p); } p += 4; if p & 0xfffffc == 0 { heartbeat(); } },
        }
        None
    })?;
    if let Some(p) = bad { return viol(format!("calls of kind {}: wrong at byte {}", kind, p)); }
    ch.exec(true);
    ch.state(kind as u64);
    ch.sample(|| format!("kind {}: {} bytes", kind, total));
    Ok(())
}
/// 4 GiB and a bit, of which only a few pages are ever touched.
struct Big { p: *mut u8, n: usize }
unsafe impl Send for Big {}
unsafe impl Sync for Big {}
impl Big {
    const N: usize = (1 << 32) + 40;
    fn get() -> Option<&'static Big> {
        static B: OnceLock<Option<Big>> = OnceLock::new();
        B.get_or_init(|| unsafe {
            let p = System.alloc_zeroed(Layout::from_size_align(Big::N, 1).unwrap());
            if p.is_null() { return None; }
            for c in [0usize, 1 << 31, 1 << 32] { for i in c.saturating_sub(64)..(c + 64).min(Big::N) { *p.add(i) = at(i as u64); } }
            Some(Big { p, n: Big::N })
        }).as_ref()
    }
}
struct BigRef(&'static Big);
impl AsRef<[u8]> for BigRef { fn as_ref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0.p, self.0.n) } } }
/// Cursors: all pairs of calls at positions around 2^31, 2^32 and the end.
pub fn cursor(ch: &mut Ch) -> R {
    let big = match Big::get() { Some(b) => b, None => return Ok(()) };
    let end = Big::N as u64;
    let start = match ch.choose(3) { 0 => (1u64 << 31) - 8 + ch.choose(16) as u64, 1 => (1u64 << 32) - 8 + ch.choose(48) as u64, _ => ch.choose(8) as u64 };
    let o1 = ch.choose(NEAR.len() + 4);
    let o1 = if o1 < NEAR.len() { NEAR[o1] } else { [Op::Skip(0x7fff_fff8), Op::Skip(0x8000_0000), Op::Skip(0xffff_fff8), Op::Skip(0xffff_ffff)][o1 - NEAR.len()] };
    for o2 in NEAR {
        let mut c = Cursor::new(BigRef(big));
        c.set_position(start);
        let mut p = start;
        for o in [o1, o2] {
            let w = want(p, end, o);
            let mut g = nopanic(&[], || apply(&mut c, o).ok())?;
            if g == Some(Out::None) { g = None; }
            if g != w { return viol(format!("cursor over {} bytes at {}: {:?}, {:?} gave {:?} at {}, expected {:?}", end, start, o1, o2, g, p, w)); }
            if w.is_none() { break; }
            p += width(o) as u64;
            if c.position() != p { return viol(format!("cursor over {} bytes at {}: {:?}, {:?}: stands at {} instead of {}", end, start, o1, o2, c.position(), p)); }
            ch.state(mix(p, width(o) as u64));
        }
        ch.exec(true);
    }
    ch.sample(|| format!("cursor at {}: {:?} and every call", start, o1));
    Ok(())
}
/// A frame in a cursor behind 2^32 bytes is found where it is, and the cursor stands behind it.
pub fn embedded(ch: &mut Ch) -> R {
    struct Far<'a>(&'a [u8], usize);
    impl<'a> AsRef<[u8]> for Far<'a> { fn as_ref(&self) -> &[u8] { self.0 } }
    let Some(_) = Big::get() else { return Ok(()) };
    let b = &corpus()[ch.choose(corpus().len())];
    let base = ch.pick(&[(1usize << 31) - 30, (1 << 32) - 30, (1 << 32) - 1, 1 << 32]);
    // A private area with the stream at `base`.
    let n = base + b.bytes.len() + 7;
    let lay = Layout::from_size_align(n, 1).unwrap();
    let p = unsafe { System.alloc_zeroed(lay) };
    if p.is_null() { return Ok(()); }
    unsafe { std::ptr::copy_nonoverlapping(b.bytes.as_ptr(), p.add(base), b.bytes.len()); }
    let data = unsafe { std::slice::from_raw_parts(p, n) };
    let r = (|| -> R {
        let mut c = Cursor::new(Far(data, 0));
        c.set_position((base + b.frame_offs[0]) as u64);
        let mut fr = FrameReader::new(c);
        let mut buf = vec![];
        for (k, w) in b.blks.iter().enumerate() {
            let (g, v) = match nopanic(&b.bytes, || fr.read_next_or_eof(std::mem::take(&mut buf)))? { Ok(Some(x)) => (blk(&x), x.into_buffer()), Ok(None) => return violb(format!("end instead of frame {} behind {} bytes", k, base), &b.bytes), Err(e) => return violb(format!("frame {} behind {} bytes: {:?}", k, base, e), &b.bytes) };
            buf = v;
            if g.ch != w.ch || g.data != w.data { return violb(format!("frame {} behind {} bytes differs", k, base), &b.bytes); }
        }
        let c = fr.into_inner();
        let at = (base + b.frame_offs[b.blks.len()]) as u64;
        if c.position() != at { return violb(format!("cursor at {} instead of {}", c.position(), at), &b.bytes); }
        Ok(())
    })();
    unsafe { System.dealloc(p, lay); }
    ch.exec(true);
    ch.state(mix(base as u64, b.bytes.len() as u64));
    ch.sample(|| format!("{} behind {} bytes", b.name, base));
    r
}
/// Metadata of more than 4 GiB.
struct Parts { parts: Vec<(Vec<u8>, u64)>, i: usize, at: u64, beat: u32 }
impl Read for Parts {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.beat = self.beat.wrapping_add(1);
        if self.beat & 0xffff == 0 { heartbeat(); }
        while self.i < self.parts.len() {
            let (h, z) = &self.parts[self.i];
            let n = h.len() as u64 + z;
            if self.at == n { self.i += 1; self.at = 0; continue; }
            let k;
            if self.at < h.len() as u64 { k = b.len().min(h.len() - self.at as usize); b[..k].copy_from_slice(&h[self.at as usize..self.at as usize + k]); }
            else { k = (b.len() as u64).min(n - self.at) as usize; for x in &mut b[..k] { *x = 0x11; } }
            self.at += k as u64;
            return Ok(k);
        }
        Ok(0)
    }
}
pub fn metadata(ch: &mut Ch) -> R {
    let ty = ch.pick(&[1u8, 3, 6, 50]);
    let n = 258usize;
    let how = ch.choose(3);
    if ch.quick() && how != (ty % 3) as usize { return Ok(()); }
    let si = Info::new(16, 1, 16, 0);
    let vc = vorbis(b"vendor", &[b"a=b"]);
    let f = quick_frame(Chan::Ind(1), 16, false, 0, &[wave(16, 14, 0, 3)], &[sub(Kind::Verbatim)]).unwrap();
    let mut parts = vec![(block(false, 0, &si.bytes()), 0)];
    if how < 2 { parts[0].0.splice(0..0, b"fLaC".iter().cloned()); }
    for _ in 0..n { parts.push((vec![ty, 0xff, 0xff, 0xff], 0xff_ffff)); }
    parts.push((block(true, 4, &vc), 0));
    parts.push((f.clone(), 0));
    let src = Parts { parts, i: 0, at: 0, beat: 0 };
    let what = || format!("{} metadata blocks of type {} of 16 MiB each, way {}", n, ty, how);
    if how < 2 {
        let mut r = match nopanic(&[], || FlacReader::new(src))? { Ok(r) => r, Err(e) => return viol(format!("{}: {:?}", what(), e)) };
        if r.get_tag("A").collect::<Vec<_>>() != ["b"] || r.vendor() != Some("vendor") { return viol(format!("{}: tags", what())); }
        let got = nopanic(&[], || next(&mut r.blocks(), vec![]))?;
        match got { Ob::Blk(ref b) if b.data.len() == 16 => {} _ => return viol(format!("{}: the audio gives {}", what(), show(&[got]))) }
    } else {
        let mut it = MetadataBlockReader::new(BufferedReader::new(src));
        let k = nopanic(&[], || { let mut k = 0; while let Some(x) = it.next() { match x { Ok(MetadataBlock::VorbisComment(ref v)) if k == n + 1 && v.vendor == "vendor" => {} Ok(MetadataBlock::StreamInfo(_)) if k == 0 => {} Ok(MetadataBlock::Padding { length: 0xff_ffff }) if ty < 7 => {} Ok(MetadataBlock::Padding { .. }) | Ok(MetadataBlock::Reserved) if ty > 2 => {} _ => return usize::MAX } k += 1; heartbeat(); } k })?;
        if k != n + 2 { return viol(format!("{}: {} blocks", what(), k)); }
    }
    ch.exec(true);
    ch.state(mix(ty as u64, how as u64));
    ch.sample(what);
    Ok(())
}
/// Bits read after 2^32 bits.
pub fn bits(ch: &mut Ch) -> R {
    let off = if ch.quick() { ch.pick(&[0u32, 3]) } else { ch.pick(&[0u32, 1, 3, 7]) };
    let kind = ch.choose(ch.t(2, 3));
    let mut s = Bitstream::new(BufferedReader::new(Rep::new(u64::MAX)));
    let mut p = 0u64;
    let get = |p: u64, n: u32| -> u32 { let mut v = 0u64; for i in 0..n as u64 { v = v << 1 | (at((p + i) >> 3) >> (7 - ((p + i) & 7)) & 1) as u64; } v as u32 };
    let quickget = |p: u64, n: u32| -> u32 { let b = p >> 3; let mut v = 0u64; for i in 0..6 { v = v << 8 | at(b + i) as u64; } ((v >> (48 - (p & 7) - n as u64)) & ((1u64 << n) - 1)) as u32 };
    let target = (1u64 << 32) - 200;
    let bad = nopanic(&[], || -> Option<u64> {
        if off > 0 { if s.read_leq_u8(off).ok().map(|x| x as u32) != Some(get(p, off)) { return Some(p); } p += off as u64; }
        while p < target {
            let n = match kind { 0 => 32, 1 => 29, _ => 11 };
            let g = if kind == 2 { s.read_gt_u8_leq_u16(n).ok() } else { s.read_leq_u32(n).ok() };
            if g != Some(quickget(p, n)) { return Some(p); }
            p += n as u64;
            if p & 0xfff_ffff < n as u64 { heartbeat(); }
        }
        for i in 0..300u32 {
            let n = [1, 8, 5, 13, 16, 32, 9, 3][i as usize % 8];
            let g = match n { 1 => s.read_bit().ok().map(|x| x as u32), 8 | 5 | 3 => s.read_leq_u8(n).ok().map(|x| x as u32), 13 | 9 => s.read_gt_u8_leq_u16(n).ok(), 16 => s.read_leq_u16(n).ok().map(|x| x as u32), _ => s.read_leq_u32(n).ok() };
            if g != Some(get(p, n)) { return Some(p); }
            p += n as u64;
            if i % 16 == 9 { let mut q = 0; while get(p + q, 1) == 0 { q += 1; } if s.read_unary().ok() != Some(q as u32) { return Some(p); } p += q + 1; }
        }
        None
    })?;
    if let Some(p) = bad { return viol(format!("bit reader, {} bits and then reads of kind {}: wrong at bit {}", off, kind, p)); }
    ch.exec(true);
    ch.state(mix(off as u64, kind as u64));
    ch.sample(|| format!("2^32 bits at offset {} by reads of kind {}", off, kind));
    Ok(())
}
/// Streams of more than 2^32 samples.
pub fn samples(ch: &mut Ch) -> R {
    let kind = ch.choose(ch.t(3, 6));
    let chans = [1u8, 2, 8, 1, 2, 8][kind];
    let bs = 65_535usize;
    let frames = (1u64 << 32) / (bs as u64 * if kind < 2 { 1 } else { chans as u64 }) + 3;
    let mk = |i: u64| -> Vec<u8> { let h = Hdr::new(bs, Chan::Ind(chans), 16, true, i * bs as u64); let mut d = h.bytes(); for c in 0..chans { d.push(0); d.extend(((i as u16) << 3 | c as u16).to_be_bytes()); } let c = crc16(&d); d.extend(c.to_be_bytes()); d };
    struct Frames<F: Fn(u64) -> Vec<u8>> { cur: Vec<u8>, at: usize, i: u64, n: u64, f: F }
    impl<F: Fn(u64) -> Vec<u8>> Read for Frames<F> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.at == self.cur.len() { if self.i == self.n { return Ok(0); } self.cur = (self.f)(self.i); self.at = 0; self.i += 1; heartbeat(); }
            let k = b.len().min(self.cur.len() - self.at);
            b[..k].copy_from_slice(&self.cur[self.at..self.at + k]);
            self.at += k;
            Ok(k)
        }
    }
    let first = head(&Info { minb: 16, maxb: 65_535, ..Info::new(16, chans as u32, 16, 0) }, &[]);
    let src = Frames { cur: first, at: 0, i: 0, n: frames, f: mk };
    let mut r = match nopanic(&[], || FlacReader::new(src))? { Ok(r) => r, Err(e) => return viol(format!("{:?}", e)) };
    let what = || format!("{} frames of {} x {} samples, way {}", frames, chans, bs, kind);
    let val = |i: u64, c: u8| ((i as u16) << 3 | c as u16) as i16 as i32;
    if kind == 0 || kind == 2 {
        // By blocks.
        let mut buf = vec![];
        for i in 0..frames {
            let b = match nopanic(&[], || r.blocks().read_next_or_eof(std::mem::take(&mut buf)))? { Ok(Some(b)) => b, x => return viol(format!("{}: block {}: {:?}", what(), i, x.map(|_| ()))) };
            if b.time() != i * bs as u64 || b.duration() != bs as u32 || b.sample(chans as u32 - 1, bs as u32 - 1) != val(i, chans - 1) || b.sample(0, 0) != val(i, 0) { return viol(format!("{}: block {} at {} wrong", what(), i, b.time())); }
            buf = b.into_buffer();
        }
        if nopanic(&[], || r.blocks().read_next_or_eof(vec![]).map(|x| x.is_none()).unwrap_or(false))? == false { return viol(format!("{}: no end", what())); }
    } else {
        fn run<A: Iterator<Item = claxon::Result<i32>>>(mut it: A, frames: u64, bs: usize, chans: u8, val: impl Fn(u64, u8) -> i32) -> Option<u64> {
            for i in 0..frames {
                let v: Vec<i32> = (0..chans).map(|c| val(i, c)).collect();
                for s in 0..bs { for c in 0..chans as usize { match it.next() { Some(Ok(x)) if x == v[c] => {} _ => return Some((i * bs as u64 + s as u64) * chans as u64 + c as u64) } } }
            }
            if it.next().is_none() { None } else { Some(u64::MAX) }
        }
        let bad = nopanic(&[], || if kind == 4 { run(r.into_samples(), frames, bs, chans, val) } else { run(r.samples(), frames, bs, chans, val) })?;
        if let Some(p) = bad { return viol(format!("{}: sample {} wrong", what(), p)); }
    }
    ch.exec(true);
    ch.state(kind as u64);
    ch.sample(what);
    Ok(())
}
