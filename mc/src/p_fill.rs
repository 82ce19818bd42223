//! Signals and residuals with long zero runs; bulk data cut near its ends; what an I/O error says about its cause;
//! buffers changed in place; pairs of coded numbers; sizes and rates coded together.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_frame::tiny;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::{Error, FlacReader};
use std::io::{self, ErrorKind, Read};

// ------------------------------------------------------------------ C01

/// Which of the places 0..n are not zero.
fn patterns(n: usize) -> Vec<Box<dyn Fn(usize) -> bool + Send + Sync>> {
    let mut v: Vec<Box<dyn Fn(usize) -> bool + Send + Sync>> = vec![Box::new(|_| false)];
    for i in [0, 1, 2, 3, 7, 15, 16, 31, 32, 33, 63, 64, 65, 66, 80, 95, 96, 97, 127, 128, 129, 191, 192, 255] { if i < n { v.push(Box::new(move |j| j == i)); } }
    for p in [1, 2, 8, 16, 32, 33, 48, 64, 65, 72, 96, 100, 128, 160, 192, 200] { if p < n { v.push(Box::new(move |j| j < p)); v.push(Box::new(move |j| j >= p)); } }
    for m in [2, 3, 4, 5, 8, 13, 32, 64, 65] { for r in [0, 1, m - 1] { v.push(Box::new(move |j| j % m == r)); v.push(Box::new(move |j| j % m != r)); } }
    for (a, b) in [(16, 32), (32, 64), (64, 96), (64, 128), (32, 128), (8, 72), (65, 130)] { v.push(Box::new(move |j| j >= a && j < b)); v.push(Box::new(move |j| j < a || j >= b)); }
    v
}
pub fn sparse(ch: &mut Ch) -> R {
    let n = ch.pick(&[128usize, 256, 192, 130]);
    let pats = patterns(n);
    let pi = ch.choose(pats.len());
    let pat = &pats[pi];
    let pred = ch.choose(13);
    let by_residual = ch.flag();
    let ones = |n: usize, c: i32| { let mut v = vec![0; n]; v[n - 1] = c; v };
    let coefs: Vec<i32> = match pred { 0 => vec![], 1 => vec![1], 2 => vec![2, -1], 3 => vec![3, -3, 1], 4 => vec![4, -6, 4, -1], 5 => vec![1], 6 => vec![3, -2], 7 => ones(4, 1), 8 => vec![1, 0, 0, 0, -1], 9 => ones(8, -1), 10 => ones(12, 2), 11 => vec![1; 13], _ => ones(32, 1) };
    let order = coefs.len();
    let shift = if pred >= 6 { 1u32 } else { 0 };
    let mut execs = 0;
    let mut cases = 0u64;
    for val in [1i64, -1, 5] {
        let e = |i: usize| if pat(i) { if val == 5 { (i as i64 * 7 % 11) - 5 } else { val } } else { 0 };
        let sig: Vec<i64> = if by_residual {
            let mut s: Vec<i64> = Vec::with_capacity(n);
            for i in 0..n { let p = if i < order { 0 } else { coefs.iter().enumerate().map(|(j, &c)| c as i64 * s[i - 1 - j]).sum::<i64>() >> shift }; let x = p + e(i); if x.abs() >= 1 << 22 { break; } s.push(x); }
            if s.len() < n { continue; }
            s
        } else { (0..n).map(e).collect() };
        for porder in 0..=6u32 {
            for k in [K::Auto, K::Fixed(0), K::Fixed(1), K::Cycle(vec![0, 1]), K::Cycle(vec![0, 0, 2])] {
                for mode in 0..4 {
                    if mode > 0 && (porder + mode) % 3 != pi as u32 % 3 && ch.quick() { continue; }
                    let r = res(mode == 1, porder, k.clone());
                    let kind = if pred < 5 { Kind::Fixed(pred, r) } else { lpc(&coefs, 4, shift, r) };
                    let other: Vec<i64> = match mode { 1 => sig.iter().rev().cloned().collect(), 2 => (0..n).map(|i| sig[(i + 64) % n]).collect(), _ => vec![0; n] };
                    let (chan, pcm) = match mode { 0 => (Chan::Ind(1), vec![sig.clone()]), 1 => (Chan::MS, vec![sig.clone(), other]), 2 => (Chan::LS, vec![sig.clone(), other]), _ => (Chan::RS, vec![other, sig.clone()]) };
                    let Some(f) = quick_frame(chan, 24, true, 0, &pcm, &[sub(kind)]) else { continue };
                    let w = Blk { time: 0, dur: n as u32, ch: pcm.len() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
                    let o = nopanic(&f, || match FrameReader::new(SliceRb::new(&f)).read_next_or_eof(vec![0x5a5a; 600]) { Ok(Some(b)) => same(&b, &w), Ok(None) => Err("end".into()), Err(e) => Err(format!("{:?}", e)) })?;
                    if let Err(m) = o { return violb(format!("{} samples, pattern {} of {}, {}: predictor {}, partition order {}, {:?}, mode {}: {}", n, pi, val, if by_residual { "residual" } else { "signal" }, pred, porder, k, mode, m), &f); }
                    execs += 1;
                    cases += (pi > 0) as u64;
                    ch.state(hash_bytes(1, &f));
                }
            }
        }
    }
    ch.execs(execs, cases);
    ch.steps(execs);
    ch.sample(|| format!("{} samples, pattern {}, predictor {}", n, pi, pred));
    Ok(())
}

// ------------------------------------------------------------------ C05

fn datum(i: usize) -> u8 { b'a' + ((i * 7 + i / 26 + i / 2048 * 3) % 26) as u8 }
/// Long application data, vendor strings and comments that arrive in pieces which end next to an end of the item or of the buffer.
pub fn bulk_cuts(ch: &mut Ch) -> R {
    let c = cap();
    let len = ch.pick(&[c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 2 * c + 5, 3 * c, 3 * c + 2, 4 * c + 1, 8 * c + 3, 20_000, 70_000]);
    let kind = ch.choose(3);
    let pad = ch.pick(&[0usize, 1, 5, 600]);
    let text: Vec<u8> = (0..len).map(datum).collect();
    let (ty, body, s0) = match kind { 0 => (2u8, { let mut b = b"appl".to_vec(); b.extend(&text); b }, 4usize), 1 => (4, vorbis(&text, &[b"a=b"]), 4), _ => { let mut t = b"k=".to_vec(); t.extend(&text); (4, vorbis(b"v", &[&t, b"c=d"]), 13 + 2) } };
    let mut d = block(false, 1, &vec![0; pad]);
    let start = d.len() + 4 + s0;
    d.extend(block(true, ty, &body));
    let end = start + len;
    let mut places: Vec<usize> = vec![];
    for p in [start, end, d.len()] { for q in p.saturating_sub(4)..=p + 3 { places.push(q); } }
    for q in end - 17..end { places.push(q); }
    for m in 1..=3 { for b in [0, start] { for q in b + m * c - 2..=b + m * c + 2 { places.push(q); } } }
    for m in 1..=4 { for b in [end] { if b > m * c { for q in b - m * c - 1..=b - m * c + 1 { places.push(q); } } } }
    places.retain(|&q| q > 0 && q < d.len());
    places.sort();
    places.dedup();
    let i = ch.choose(places.len());
    let seconds: Vec<usize> = std::iter::once(0).chain(places[i + 1..].iter().cloned()).collect();
    let rc: std::rc::Rc<[u8]> = d[..].into();
    let mut n = 0;
    for (k, &q) in seconds.iter().enumerate() {
        let mut cuts = vec![places[i]];
        if q > 0 { cuts.push(q); }
        let mut s = Src::rc(rc.clone()).chunk(Chunk::Cuts(cuts.clone()));
        if k % 2 == 1 { s = s.scribble(0x7a); }
        let bad = |m: String| -> R { violb(format!("{} of {} bytes behind {} bytes of padding, delivered up to {:?} at first: {}", ["application data", "a vendor string", "a comment"][kind], len, pad, cuts, m), &d[..d.len().min(4000)]) };
        let mut it = MetadataBlockReader::new(BufferedReader::new(s));
        let r = nopanic(&d[..100], || { let a = it.next(); let b = it.next(); let c = it.next().is_none(); (a.map(|x| x.is_ok()), b, c) })?;
        if r.0 != Some(true) || !r.2 { return bad("padding or the end wrong".into()); }
        match r.1 {
            Some(Ok(MetadataBlock::Application { data, .. })) if kind == 0 => if data != text { let p = (0..data.len().min(len)).find(|&p| data[p] != text[p]); return bad(format!("{} bytes, wrong from {:?}", data.len(), p)); },
            Some(Ok(MetadataBlock::VorbisComment(v))) if kind == 1 => if v.vendor.as_bytes() != &text[..] || v.comments != vec![("a=b".to_string(), 1)] { return bad("vendor string or comment differs".into()); },
            Some(Ok(MetadataBlock::VorbisComment(v))) if kind == 2 => if v.vendor != "v" || v.comments.len() != 2 || v.comments[0].0.as_bytes()[2..] != text[..] || v.comments[0].1 != 1 || v.comments[1].0 != "c=d" { return bad("comments differ".into()); },
            Some(Err(e)) => return bad(format!("{:?}", e)),
            _ => return bad("another block".into()),
        }
        n += 1;
        ch.state(mix(hash_bytes(k as u64, &d[..40]), mix(i as u64, d.len() as u64)));
    }
    ch.execs(n, n);
    ch.sample(|| format!("kind {}, {} bytes, cut at {}", kind, len, places[i]));
    Ok(())
}
/// Bulk reads of many lengths from a buffered reader, cut likewise.
pub fn bulk_reads(ch: &mut Ch) -> R {
    let c = cap();
    let len = ch.pick(&[1usize, 2, 9, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 2 * c + 2, 3 * c, 4 * c + 1, 8 * c + 3]);
    let before = ch.pick(&[0usize, 1, 3, c - 1, c, c + 1]);
    let first_fill = ch.pick(&[1usize, 5, c / 2, c]);
    let total = before + len + 5;
    let d: Vec<u8> = (0..total).map(|i| (mix(3, i as u64) >> 7) as u8).collect();
    let rc: std::rc::Rc<[u8]> = d[..].into();
    let mut ends: Vec<usize> = vec![];
    for b in [before, before + len] { for q in b.saturating_sub(9)..=b + 3 { ends.push(q); } for m in 1..=3 { for s in -1i64..=1 { ends.push((b as i64 + m * c as i64 + s) as usize); ends.push((b as i64 - m * c as i64 + s).max(0) as usize); } } }
    ends.retain(|&q| q > 0 && q < total);
    ends.sort();
    ends.dedup();
    let mut n = 0;
    for (i, &a) in ends.iter().enumerate() {
        for &b in &ends[i..] {
            let s = Src::rc(rc.clone()).chunk(Chunk::Cuts(vec![first_fill.min(a), a, b]));
            let mut r = BufferedReader::new(if (i + b) % 2 == 0 { s.scribble(0xee) } else { s });
            let mut v = vec![0u8; len];
            let ok = nopanic(&d, || r.skip(before as u32).is_ok() && r.read_into(&mut v).is_ok())?;
            let rest = nopanic(&d, || { let mut w = [0u8; 5]; r.read_into(&mut w).map(|_| w).ok() })?;
            let eof = nopanic(&d, || matches!(r.read_u8_or_eof(), Ok(None)) && r.read_u8().err().map(|e| e.kind()) == Some(ErrorKind::UnexpectedEof))?;
            if !ok || v[..] != d[before..before + len] || rest.map(|w| w[..] == d[before + len..]) != Some(true) || !eof {
                return violb(format!("a bulk read of {} bytes after {} skipped ones, delivered up to {}, {} and {}: {}", len, before, first_fill, a, b, if !ok { "failed" } else { "wrong bytes" }), &d[..total.min(3000)]);
            }
            n += 1;
        }
    }
    ch.execs(n, n);
    ch.state(mix(mix(len as u64, before as u64), first_fill as u64));
    ch.sample(|| format!("bulk read of {} after {}", len, before));
    Ok(())
}

// ------------------------------------------------------------------ C06

struct Bad<'a> { d: &'a [u8], pos: usize, kind: ErrorKind, how: usize }
#[derive(Debug)]
struct Own(u32);
impl std::fmt::Display for Own { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "own error {}", self.0) } }
impl std::error::Error for Own {}
impl<'a> Bad<'a> {
    fn err(&self) -> io::Error { match self.how { 0 => io::Error::new(self.kind, MARK), 1 => io::Error::new(self.kind, Own(77)), 2 => io::Error::from(self.kind), 3 => io::Error::from_raw_os_error(5), _ => io::Error::new(self.kind, "") } }
}
impl<'a> Read for Bad<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.d.len() { return Err(self.err()); }
        let n = b.len().min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub const KINDS: [ErrorKind; 20] = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::StorageFull];
/// What an error from the source looks like: kind, inner error, cause, text, equality.
#[allow(deprecated)]
pub fn causes(ch: &mut Ch) -> R {
    let kind = ch.pick(&KINDS);
    let how = ch.choose(5);
    let b = &corpus()[ch.choose(5)];
    let d = &b.bytes;
    let a0 = b.frame_offs[0];
    let judge = |e: &Error, what: &str| -> Result<(), String> {
        let probe = Bad { d: &[], pos: 0, kind, how }.err();
        let io = match e { Error::IoError(io) => io, _ => return Err(format!("{}: {:?}", what, e)) };
        if io.kind() != probe.kind() || io.raw_os_error() != probe.raw_os_error() || io.to_string() != probe.to_string() || io.get_ref().is_some() != probe.get_ref().is_some() { return Err(format!("{}: {:?}, the source had reported {:?}", what, io, probe)); }
        if how == 1 && io.get_ref().and_then(|x| x.downcast_ref::<Own>()).map(|o| o.0) != Some(77) { return Err(format!("{}: the source's own error is gone: {:?}", what, io)); }
        match std::error::Error::cause(e) { Some(c) => if c.to_string() != probe.to_string() || format!("{:?}", c) != format!("{:?}", probe) { return Err(format!("{}: cause {:?}, the source had reported {:?}", what, c, probe)); }, None => return Err(format!("{}: {:?} without a cause", what, io)) }
        if e.to_string() != probe.to_string() { return Err(format!("{}: displayed as {:?}, the source's error says {:?}", what, e.to_string(), probe.to_string())); }
        if !format!("{:?}", e).contains(&format!("{:?}", probe)) { return Err(format!("{}: {:?} does not show {:?}", what, e, probe)); }
        if std::error::Error::description(e) != std::error::Error::description(&probe) { return Err(format!("{}: description {:?}", what, std::error::Error::description(e))); }
        Ok(())
    };
    let src = |n: usize| Bad { d: &d[..n], pos: 0, kind, how };
    let mut n = 0;
    let mut give = |r: Option<Error>, what: String| -> R { n += 1; match r { Some(e) => match judge(&e, &what) { Ok(()) => Ok(()), Err(m) => violb(format!("{} ({:?}, form {}): {}", b.name, kind, how, m), d) }, None => violb(format!("{} ({:?}, form {}): {}: no error", b.name, kind, how, what), d) } };
    for cut in 0..a0 { give(nopanic(d, || FlacReader::new(src(cut)).err())?, format!("construction after {} bytes", cut))?; }
    for cut in 4..a0 {
        let s = Bad { d: &d[4..cut], pos: 0, kind, how };
        give(nopanic(d, || { let mut it = MetadataBlockReader::new(BufferedReader::new(s)); loop { match it.next() { Some(Ok(_)) => {} Some(Err(e)) => return Some(e), None => return None } } })?, format!("metadata iterator after {} bytes", cut))?;
    }
    for cut in 8..42 { let s = Bad { d: &d[8..cut], pos: 0, kind, how }; give(nopanic(d, || metadata::read_metadata_block(&mut BufferedReader::new(s), 0, 34).err())?, format!("stream info after {} bytes", cut))?; }
    for cut in a0..=d.len() {
        let open = || FlacReader::new(src(cut)).ok();
        if nopanic(d, || open().is_some())? {
            give(nopanic(d, || { let mut r = open().unwrap(); let mut fr = r.blocks(); let mut buf = vec![]; loop { match fr.read_next_or_eof(buf) { Ok(Some(b)) => buf = b.into_buffer(), Ok(None) => return None, Err(e) => return Some(e) } } })?, format!("blocks after {} bytes", cut))?;
            give(nopanic(d, || { let mut r = open().unwrap(); let x = r.samples().filter_map(|s| s.err()).next(); x })?, format!("samples after {} bytes", cut))?;
            give(nopanic(d, || open().unwrap().into_samples().filter_map(|s| s.err()).next())?, format!("into_samples after {} bytes", cut))?;
        } else { return violb(format!("{} with all of the metadata: not opened", b.name), d); }
    }
    ch.execs(n, n);
    ch.state(mix(kind as u64, mix(how as u64, h(&b.name))));
    ch.sample(|| format!("{:?} in form {} at every byte of {}", kind, how, b.name));
    Ok(())
}

// ------------------------------------------------------------------ C07

fn change(how: usize, v: &mut Vec<i32>, val: i32) {
    let n = v.len();
    match how {
        0 => {}
        1 => for x in v.iter_mut() { *x = val },
        2 => for x in v.iter_mut().skip(1) { *x = val },
        3 => if n > 0 { v[0] = val },
        4 => if n > 0 { v[n - 1] = val },
        5 => if n > 0 { v[n / 2] = val },
        6 => for x in v.iter_mut().take(n / 2) { *x = val },
        7 => { for x in v.iter_mut() { *x = val } v.clear() }
        8 => { v.truncate(1) }
        9 => { let c = v.capacity(); v.resize(c, val) }
        10 => { let k = v.last().cloned().unwrap_or(0); for x in v.iter_mut() { *x = k } }
        11 => v.reverse(),
        _ => for x in v.iter_mut() { *x = x.wrapping_add(1) },
    }
}
fn small_frames() -> &'static [(Vec<u8>, Blk)] {
    static F: std::sync::OnceLock<Vec<(Vec<u8>, Blk)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let mut v = vec![];
        let mut add = |chan: Chan, pcm: Vec<Vec<i64>>, subs: Vec<Sub>| { let f = quick_frame(chan, 16, true, 9, &pcm, &subs).expect("small frame"); v.push((f, Blk { time: 9, dur: pcm[0].len() as u32, ch: pcm.len() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() })); };
        for n in [16usize, 17] {
            for c in [0i64, 7, -7] { add(Chan::Ind(1), vec![vec![c; n]], vec![sub(Kind::Constant)]); }
            add(Chan::Ind(1), vec![vec![7; n]], vec![sub(Kind::Verbatim)]);
            add(Chan::Ind(1), vec![vec![7; n]], vec![sub(Kind::Fixed(0, res0()))]);
            add(Chan::Ind(1), vec![vec![0; n]], vec![sub(Kind::Fixed(2, res0()))]);
            add(Chan::Ind(1), vec![vec![7; n]], vec![sub(Kind::Fixed(1, res0()))]);
            add(Chan::Ind(1), vec![wave(n, 16, 0, 1)], vec![sub(Kind::Verbatim)]);
            add(Chan::Ind(1), vec![wave(n, 16, 0, 1)], vec![sub(lpc(&[3, -1], 4, 1, res0()))]);
            let two = |a: i64, b: i64| vec![vec![a; n], vec![b; n]];
            for chan in [Chan::Ind(2), Chan::LS, Chan::RS, Chan::MS] { add(chan, two(7, 7), vec![sub(Kind::Constant)]); }
            add(Chan::Ind(2), two(0, 7), vec![sub(Kind::Constant)]);
            add(Chan::MS, two(8, -7), vec![sub(Kind::Constant), sub(Kind::Verbatim)]);
            add(Chan::LS, vec![wave(n, 16, 0, 1), wave(n, 16, 1, 2)], vec![sub(Kind::Fixed(1, res0()))]);
        }
        v
    })
}
/// The buffer of one block changed in place and given back for the next.
pub fn in_place(ch: &mut Ch) -> R {
    let fs = small_frames();
    let (i, j) = (ch.choose(fs.len()), ch.choose(fs.len()));
    let thirds = [0usize, 1, 2, 3];
    let mut n = 0;
    for t in thirds {
        let k = match t { 0 => j, 1 => i, 2 => (i + j) % fs.len(), _ => (i * 5 + 3) % fs.len() };
        let d: Vec<u8> = [i, j, k].iter().flat_map(|&x| fs[x].0.iter().cloned()).collect();
        for how in 0..13 {
            for val in [i32::MIN, 7, 0, -1] {
                if how == 0 && val != 7 { continue; }
                let mut fr = FrameReader::new(SliceRb::new(&d));
                let mut buf: Vec<i32> = vec![];
                for (q, &x) in [i, j, k].iter().enumerate() {
                    let w = &fs[x].1;
                    let r = nopanic(&d, || match fr.read_next_or_eof(std::mem::take(&mut buf)) { Ok(Some(b)) => same(&b, w).map(|_| b.into_buffer()), o => Err(format!("{:?}", o.map(|_| ()))) })?;
                    match r { Ok(v) => buf = v, Err(m) => return violb(format!("frames {}, {}, {} with the buffer changed in between (way {}, {}): frame {}: {}", i, j, k, how, val, q, m), &d) }
                    change(how, &mut buf, val);
                }
                n += 1;
            }
        }
    }
    ch.execs(n, n);
    ch.steps(3 * n);
    ch.state((i * 100 + j) as u64);
    ch.sample(|| format!("frames {} and {}", i, j));
    Ok(())
}

// ------------------------------------------------------------------ C09

/// Every two and three of some 60 numbers in one reader.
pub fn number_triples(ch: &mut Ch) -> R {
    let variable = ch.flag();
    let cap_ = if variable { (1u64 << 36) - 1 } else { (1 << 31) - 1 };
    let mut l: Vec<u64> = vec![0, 1, 2, 3, 15, 16, 17, 20, 31, 32, 4095, 4096, 4097, 44100];
    for b in [7u32, 8, 11, 15, 16, 21, 24, 26, 31, 32, 36] { for s in -2i64..=1 { let x = (1i64 << b) + s; if x >= 0 && x as u64 <= cap_ { l.push(x as u64); } } }
    l.sort();
    l.dedup();
    let a = ch.pick(&l);
    let b = ch.pick(&l);
    let sizes = ch.pick(&[[16usize, 16, 16], [16, 16, 5], [4096, 4096, 4096]]);
    let known = ch.choose(2);
    if variable && known == 1 { return Ok(()); }
    let mut n = 0;
    for (k, &c) in l.iter().enumerate() {
        let nums = [a, b, c];
        let mut d = if known == 1 { head(&Info::new(sizes[0] as u16, 1, 8, 0), &[]) } else { vec![] };
        for q in 0..3 { d.extend(tiny(variable, varint(nums[q], varint_len(nums[q])), sizes[q], 8)); }
        let want = |q: usize| if variable { nums[q] } else { nums[q] * sizes[0] as u64 };
        let mut go = |fr: &mut dyn FnMut(Vec<i32>) -> Result<(u64, u32, Vec<i32>), String>| -> R {
            let mut buf = vec![0; sizes[0]];
            for q in 0..3 {
                match nopanic(&d, || fr(std::mem::take(&mut buf)))? {
                    Ok((t, dur, v)) => { if t != want(q) || dur != sizes[q] as u32 { return violb(format!("blocks numbered {:?} of sizes {:?}, {}: block {} is at {} with duration {}, expected {} and {}", nums, sizes, if variable { "variable" } else { "fixed" }, q, t, dur, want(q), sizes[q]), &d); } buf = v; }
                    Err(m) => return violb(format!("blocks numbered {:?}: block {}: {}", nums, q, m), &d),
                }
            }
            Ok(())
        };
        fn step<T: ReadBytes>(fr: &mut FrameReader<T>, b: Vec<i32>) -> Result<(u64, u32, Vec<i32>), String> { match fr.read_next_or_eof(b) { Ok(Some(b)) => Ok((b.time(), b.duration(), b.into_buffer())), x => Err(format!("{:?}", x.map(|_| ()))) } }
        if known == 1 {
            let mut r = match nopanic(&d, || FlacReader::new(&d[..]))? { Ok(r) => r, Err(e) => return violb(format!("{:?}", e), &d) };
            if k % 2 == 0 { let mut fr = r.blocks(); go(&mut |b| step(&mut fr, b))?; } else { go(&mut |b| step(&mut r.blocks(), b))?; }
        } else { let mut fr = FrameReader::new(SliceRb::new(&d)); go(&mut |b| step(&mut fr, b))?; }
        n += 1;
        ch.state(mix(mix(a, b), mix(c, sizes[2] as u64 * 2 + variable as u64)));
    }
    ch.execs(n, n);
    ch.steps(3 * n);
    ch.sample(|| format!("numbers {} and {}, sizes {:?}, variable {}", a, b, sizes, variable));
    Ok(())
}

// ------------------------------------------------------------------ C10

/// Every block size of one byte with every rate of two bytes; sizes of two bytes with rates like them.
pub fn size_rate(ch: &mut Ch) -> R {
    let form = ch.choose(5);
    let hi = ch.choose(256) as u32;
    let variable = ch.parity() % 2 == 1;
    let mut n = 0u64;
    let mut one = |h: &Hdr| -> R {
        let f = { let mut v = h.bytes(); v.extend([0, 3]); let c = crc16(&v); v.extend(c.to_be_bytes()); v };
        n += 1;
        let got = nopanic(&f, || FrameReader::new(SliceRb::new(&f)).read_next_or_eof(vec![]).map(|b| b.map(|b| (b.duration(), b.channels(), b.sample(0, b.duration() - 1)))))?;
        match got { Ok(Some((d, 1, 3))) if d == h.bs_ext + 1 => Ok(()), x => violb(format!("block size {} and rate code {} with {}: {:?}", h.bs_ext + 1, h.sr_code, h.sr_ext, x), &f) }
    };
    let base = Hdr { b0: 0xff, b1: 0xf8 | variable as u8, bs_code: 6, sr_code: 13, ch_code: 0, bps_code: 1, res: 0, num: vec![if hi & 3 == 0 { 0 } else { (hi >> 1) as u8 }], bs_ext: hi, sr_ext: 0 };
    match form {
        0 | 1 => for r in 0..=65535u32 { one(&Hdr { sr_code: 13 + form as u8, sr_ext: r as u16, ..base.clone() })?; },
        2 => for r in 0..256u16 { one(&Hdr { sr_code: 12, sr_ext: r, ..base.clone() })?; },
        _ => for lo in 0..256u32 {
            let bs = hi << 8 | lo;
            if bs == 65535 { continue; }
            let b = Hdr { bs_code: 7, bs_ext: bs, ..base.clone() };
            if form == 3 { for r in [0, 1, hi, lo, 255 - lo] { one(&Hdr { sr_code: 12, sr_ext: r as u16, ..b.clone() })?; } }
            else { for r in [0, bs, bs + 1, bs.wrapping_sub(1) & 0xffff, (bs + 1) / 10, bs / 10, (lo << 8 | hi), 44100, 4410] { for c in [13, 14] { if c == 14 && r == 44100 { continue; } one(&Hdr { sr_code: c, sr_ext: r as u16, ..b.clone() })?; } } }
        },
    }
    ch.execs(n, n);
    ch.state((form << 8) as u64 | hi as u64);
    ch.sample(|| format!("form {}, first byte {:#x}", form, hi));
    Ok(())
}
