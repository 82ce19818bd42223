//! The pool: some three thousand single frames of every shape, put through the checkers of every property,
//! and products of sizes, channel modes and values that go through all of a dimension.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_client::*;
use crate::p_fault::*;
use crate::p_frame::*;
use crate::refdec;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::FlacReader;
use std::io::{Cursor, ErrorKind};

fn modes() -> Vec<Chan> { (1..=8).map(Chan::Ind).chain([Chan::LS, Chan::RS, Chan::MS]).collect() }
fn is_small(f: &Pf) -> bool { f.bytes.len() < 240 && f.blk.data.len() <= 2000 }
/// A small frame of the pool.
fn small(ch: &mut Ch) -> &'static Pf {
    static C: std::sync::OnceLock<Vec<&'static Pf>> = std::sync::OnceLock::new();
    let v = C.get_or_init(|| frames().iter().filter(|f| is_small(f)).collect());
    v[ch.choose(v.len())]
}
fn some(ch: &mut Ch) -> &'static Pf { let v = frames(); &v[ch.choose(v.len())] }
fn read(ch: &mut Ch, d: &[u8], w: &Blk, buf: Vec<i32>, buffered: bool, what: &dyn Fn() -> String) -> Result<Vec<i32>, Viol> {
    let r = nopanic(d, || if buffered { FrameReader::new(BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(41)).scribble(0xa5))).read_next_or_eof(buf) } else { FrameReader::new(SliceRb::new(d)).read_next_or_eof(buf) })?;
    ch.exec(true);
    match r {
        Ok(Some(g)) => { if let Err(m) = same(&g, w) { return violb(format!("{}: {}", what(), m), d); } Ok(g.into_buffer()) }
        r => violb(format!("{}: {:?}", what(), r.map(|x| x.is_some())), d),
    }
}

// ------------------------------------------------------------------ C01
pub fn decode(ch: &mut Ch) -> R {
    let f = some(ch);
    if let Ok(w) = refdec::frame(&f.bytes) { if !w.strict || w.data.iter().map(|&x| x as i32).ne(f.blk.data.iter().cloned()) { panic!("the reference decoder disagrees with the encoder on {}", f.what) } } else { panic!("the reference decoder rejects {}", f.what) }
    let n = f.blk.data.len();
    for k in 0..4 {
        let buf = match k { 0 => vec![], 1 => vec![0x5555_5555; n], 2 => vec![-1; n + 9], _ => vec![i32::MIN; n / 2] };
        read(ch, &f.bytes, &f.blk, buf, k == 3, &|| f.what.clone())?;
    }
    ch.state(hash_bytes(1, &f.bytes[..f.bytes.len().min(500)]));
    ch.sample(|| f.what.clone());
    Ok(())
}
pub fn modes_sizes(ch: &mut Ch) -> R {
    let n = size_choice(ch, 2400);
    for (i, &chan) in modes().iter().enumerate() {
        let bps = [8u32, 12, 16, 20, 24][(n + i) % 5];
        let w = chan.n();
        // Extreme values: sides need their extra bit.
        let hi = (1i64 << (bps - 1)) - 1;
        let pcm: Vec<Vec<i64>> = (0..w).map(|c| vec![if c % 2 == 0 { hi - (n % 3) as i64 } else { -hi - 1 + (n % 5) as i64 }; n]).collect();
        let d = quick_frame(chan, bps, n % 2 == 0, 0, &pcm, &[sub(Kind::Constant)]).unwrap();
        let blk = Blk { time: 0, dur: n as u32, ch: w as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
        read(ch, &d, &blk, vec![0x77; if i % 2 == 0 { 0 } else { 3 * n }], false, &|| format!("{} samples {:?} {} bit", n, chan, bps))?;
        if n <= ch.t(160, 1200) {
            let pcm: Vec<Vec<i64>> = (0..w).map(|c| wave(n, bps, c, n + i)).collect();
            let d = quick_frame(chan, bps, true, 5, &pcm, &[sub(Kind::Fixed(n.min(2), res(true, 0, K::Auto))), sub(Kind::Verbatim)]).unwrap();
            let blk = Blk { time: 5, dur: n as u32, ch: w as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
            read(ch, &d, &blk, vec![], false, &|| format!("{} varying samples {:?} {} bit", n, chan, bps))?;
        }
    }
    ch.state(n as u64);
    ch.sample(|| format!("{} samples in 11 channel modes", n));
    Ok(())
}
/// All sizes up to `dense` and interesting ones above; thorough: all.
fn size_choice(ch: &mut Ch, dense: usize) -> usize {
    if !ch.quick() { return ch.range(1, 65535); }
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let v = C.get_or_init(|| sizes(0));
    let above: Vec<usize> = v.iter().cloned().filter(|&x| x > dense).collect();
    let i = ch.choose(dense + above.len());
    if i < dense { i + 1 } else { above[i - dense] }
}
pub fn values16(ch: &mut Ch) -> R {
    let hi = ch.choose(256) as i64;
    for lo in 0..256i64 {
        let s = (hi << 8 | lo) as u16 as i16 as i64;
        for (chan, kind, n) in [(Chan::Ind(1), Kind::Constant, 16), (Chan::Ind(1), Kind::Verbatim, 1), (Chan::Ind(2), Kind::Verbatim, 2), (Chan::MS, Kind::Verbatim, 2), (Chan::LS, Kind::Fixed(1, res(true, 0, K::Auto)), 3), (Chan::RS, Kind::Constant, 2)] {
            let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| (0..n).map(|i| if c == 0 || i % 2 == 1 && kind != Kind::Constant { s } else { (s as i16 ^ 0x5a5a) as i64 }).collect()).collect();
            let d = quick_frame(chan, 16, true, 0, &pcm, &[sub(kind.clone())]).unwrap();
            let blk = Blk { time: 0, dur: n as u32, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
            read(ch, &d, &blk, vec![], false, &|| format!("16-bit value {} in {:?}", s, chan))?;
        }
    }
    ch.state(hi as u64);
    ch.sample(|| format!("16-bit values {:#x}..", hi << 8));
    Ok(())
}

// ------------------------------------------------------------------ C02
pub fn headers(ch: &mut Ch) -> R {
    let b2 = ch.choose(256) as u8;
    let b1 = ch.pick(&[0xf8u8, 0xf9]);
    let nums: &[&[u8]] = &[&[0], &[0x7f], &[0xc3, 0xbf], &[0xef, 0xbf, 0xbf], &[0xfd, 0xbf, 0xbf, 0xbf, 0xbf, 0xbf], &[0xfe, 0xbf, 0xbf, 0xbf, 0xbf, 0xbf, 0xbf]];
    let bse: &[&[u8]] = match b2 >> 4 { 6 => &[&[0], &[0xff], &[0x0f]], 7 => &[&[0, 0], &[0xff, 0xff], &[0, 0x0f], &[0xff, 0xfe], &[0x7f, 0xff]], _ => &[&[]] };
    let sre: &[&[u8]] = match b2 & 15 { 12 => &[&[0], &[0xff], &[0x2c]], 13 | 14 => &[&[0, 0], &[0xff, 0xff], &[0x00, 0x01]], _ => &[&[]] };
    for b3 in 0..=255u8 {
        for (ni, num) in nums.iter().enumerate() { for bs in bse { for sr in sre {
            if ch.quick() && ni > 0 && (b3 as usize + ni) % 4 != 0 { continue; }
            let mut hd = vec![0xff, b1, b2, b3];
            hd.extend(*num); hd.extend(*bs); hd.extend(*sr);
            all_of_frames(&around(&hd, None))?;
            ch.exec(true);
        } } }
    }
    ch.state(b2 as u64 * 2 + (b1 & 1) as u64);
    ch.sample(|| format!("block size and rate codes {:#x}, every fourth byte, boundary numbers and extensions", b2));
    Ok(())
}
pub fn use_sizes(ch: &mut Ch) -> R {
    let n = size_choice(ch, 2400);
    for &chan in &modes() {
        let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| vec![c as i64 * 9 - 40; n]).collect();
        let d = quick_frame(chan, 8, n % 2 == 0, 1, &pcm, &[sub(Kind::Constant)]).unwrap();
        all_of_frames(&d)?;
        ch.exec(true);
    }
    ch.state(n as u64);
    ch.sample(|| format!("{} samples in 11 channel modes", n));
    Ok(())
}
fn flipped(ch: &mut Ch, f: &Pf, from: usize, stride: usize, g: &mut dyn FnMut(&mut Ch, &[u8]) -> R) -> R {
    let n = f.bytes.len() - 2;
    let mut d = f.bytes.clone();
    for i in (from * 8..n * 8).step_by(stride) {
        d[i / 8] ^= 0x80 >> (i % 8);
        fix_crc16(&mut d);
        g(ch, &d)?;
        d[i / 8] ^= 0x80 >> (i % 8);
    }
    heartbeat();
    Ok(())
}
pub fn use_flips(ch: &mut Ch) -> R {
    let f = small(ch);
    let hl = refdec::header(&f.bytes).map(|h| h.len).unwrap_or(6);
    flipped(ch, f, hl, 1, &mut |ch, d| { ch.exec(true); all_of_frames(d) })?;
    let mut d = f.bytes.clone();
    for i in 1..hl - 1 { for v in [0u8, 1, 0x0f, 0x10, 0x7f, 0x80, 0xf0, 0xfe, 0xff] {
        let old = d[i]; d[i] = v;
        d[hl - 1] = crc8(&d[..hl - 1]);
        fix_crc16(&mut d);
        ch.exec(true);
        all_of_frames(&d)?;
        d[i] = old;
        d[hl - 1] = crc8(&d[..hl - 1]);
    } }
    ch.state(hash_bytes(2, &f.bytes));
    Ok(())
}

// ------------------------------------------------------------------ C03, C10, C11
pub fn bit_damage(ch: &mut Ch) -> R {
    let f = small(ch);
    let mut d = f.bytes.clone();
    for i in 0..d.len() * 8 {
        d[i / 8] ^= 0x80 >> (i % 8);
        judge(ch, &d, Exact::No)?;
        d[i / 8] ^= 0x80 >> (i % 8);
    }
    // two neighbouring bytes exchanged, a byte repeated or lost
    for i in 0..d.len() - 1 { if d[i] != d[i + 1] { d.swap(i, i + 1); judge(ch, &d, Exact::No)?; d.swap(i, i + 1); } }
    heartbeat();
    ch.sample(|| format!("every bit of {}", f.what));
    Ok(())
}
pub fn wrong_sums(ch: &mut Ch) -> R {
    let f = small(ch);
    let n = f.bytes.len();
    let mut d = f.bytes.clone();
    let c = u16::from_be_bytes([d[n - 2], d[n - 1]]);
    for w in [0u16, 0xffff, !c, c.swap_bytes(), c ^ 0xff, c ^ 0xff00, c.wrapping_add(1), c.wrapping_sub(1), c & 0xff, c & 0xff00, c >> 8, c << 8] { if w != c { d[n - 2..].copy_from_slice(&w.to_be_bytes()); judge(ch, &d, Exact::Yes)?; } }
    let hl = refdec::header(&f.bytes).unwrap().len;
    let c = f.bytes[hl - 1];
    for w in 0..=255u8 { if w != c && (w % 4 == c % 4 || w.count_ones() < 2 || w > 0xfc) {
        let mut d = f.bytes.clone();
        d[hl - 1] = w;
        judge(ch, &d, Exact::Yes)?;
        fix_crc16(&mut d);
        judge(ch, &d, Exact::Yes)?;
    } }
    Ok(())
}
pub fn header_changes(ch: &mut Ch) -> R {
    let f = some(ch);
    let hl = refdec::header(&f.bytes).unwrap().len;
    // The reader's verdict on the header does not need all of a large frame.
    if f.bytes.len() > 3000 { return Ok(()); }
    let n = f.bytes.len();
    let mut d = f.bytes.clone();
    for i in 0..hl * 8 - 8 {
        d[i / 8] ^= 0x80 >> (i % 8);
        d[hl - 1] = crc8(&d[..hl - 1]);
        fix_crc16(&mut d[..n]);
        judge(ch, &d, Exact::No)?;
        d[i / 8] ^= 0x80 >> (i % 8);
    }
    heartbeat();
    ch.sample(|| format!("every header bit of {}", f.what));
    Ok(())
}
pub fn body_changes(ch: &mut Ch) -> R {
    let f = small(ch);
    let hl = refdec::header(&f.bytes).unwrap().len;
    flipped(ch, f, hl, 1, &mut |ch, d| judge(ch, d, Exact::No).map(|_| ()))?;
    let mut d = f.bytes.clone();
    for i in hl..d.len() - 2 { for v in [0u8, 0xff, d[i].wrapping_add(1), d[i] ^ 0xaa] { let old = d[i]; if v == old { continue; } d[i] = v; fix_crc16(&mut d); judge(ch, &d, Exact::No)?; d[i] = old; } }
    ch.sample(|| format!("every bit of the subframes of {}", f.what));
    Ok(())
}

// ------------------------------------------------------------------ C04, C05, C06, C22
fn stream(ch: &mut Ch) -> (usize, &'static Built) { let v = small_pool(); let i = ch.choose(v.len()); (i, v[i]) }
pub fn cuts(ch: &mut Ch) -> R {
    let (i, b) = stream(ch);
    for cut in b.frame_offs[0]..=b.bytes.len() {
        cut_check(ch, b, cut, [0, 1, 2, 4, 5, 6, 3][(i + cut) % 7], [usize::MAX, 1, 2, 3, 7][(i + cut / 7) % 5])?;
        cut_check(ch, b, cut, if cut % 2 == 0 { 4 } else { 0 }, usize::MAX)?;
        if !ch.quick() { for iface in 0..7 { cut_check(ch, b, cut, iface, 1 + cut % 6)?; } }
    }
    heartbeat();
    ch.sample(|| format!("{}, every cut of {} bytes", frames()[i].what, b.bytes.len()));
    Ok(())
}
pub fn deliveries(ch: &mut Ch) -> R {
    let (i, b) = stream(ch);
    let d = &b.bytes;
    let want = Full { meta: Ok(meta_expect(b)), obs: expect_all(b) };
    let a0 = b.frame_offs[0];
    let mut go = |ch: &mut Ch, c: Chunk, scr: Option<u8>| -> R {
        let got = nopanic(d, || { let s = Src::new(d).chunk(c.clone()); full(if let Some(x) = scr { s.scribble(x) } else { s }) })?;
        ch.exec(true);
        if got != want { return violb(format!("{:?} with the unused buffer set to {:?}: {:?} {}, expected {}", c, scr, got.meta.as_ref().map(|_| ()), show(&got.obs), show(&want.obs)), d); }
        Ok(())
    };
    for c in [1usize, 2, 3, 4, 5, 6, 7, 9, 11, 16, 23, 64] { for scr in [None, Some(0xffu8), Some(0), Some(0xa5)] { if ch.quick() && c > 7 && (c + i) % 3 != 0 { continue; } go(ch, Chunk::Uniform(c), scr)?; } }
    for a in a0..d.len() { go(ch, Chunk::Cuts(vec![a]), Some([0xffu8, 0, 0xa5, 0x80][(a + i) % 4]))?; if !ch.quick() { for b in a + 1..d.len().min(a + 9) { go(ch, Chunk::Cuts(vec![a, b]), Some([0xffu8, 0, 0xa5, 0x80][(b + i) % 4]))?; } } }
    heartbeat();
    ch.state(hash_bytes(5, d));
    Ok(())
}
pub fn faults(ch: &mut Ch) -> R {
    let (i, b) = stream(ch);
    for chunk in [1usize, [3, 4, 7, 10][i % 4]] {
        for at in b.frame_offs[0] / chunk..reads_needed(b, chunk) {
            let k = at + i;
            let how = [How::Blocks, How::Samples, How::NewBlocks, How::IntoSamples][k % 4];
            let kind = [ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::InvalidData][k % 5];
            fault_check(ch, b, chunk, Fault { at, kind, persistent: k % 3 == 0, os: k % 7 == 0 }, how)?;
            if !ch.quick() { for how in [How::Blocks, How::Samples, How::NewBlocks, How::IntoSamples] { fault_check(ch, b, chunk, Fault { at, kind: ErrorKind::UnexpectedEof, persistent: false, os: false }, how)?; fault_check(ch, b, chunk, Fault { at, kind: ErrorKind::Interrupted, persistent: false, os: false }, how)?; } }
        }
    }
    heartbeat();
    Ok(())
}
pub fn after_defects(ch: &mut Ch) -> R {
    let (i, b) = stream(ch);
    let (s, e) = (b.frame_offs[0], b.frame_offs[1]);
    let second = b.blks.len() > 1;
    let first: Vec<i32> = inter(&b.blks[0]);
    let mut d = b.bytes.clone();
    for k in s..d.len() {
        let m = [1u8, 0x80, 0xff, 0x10][(k + i) % 4];
        d[k] ^= m;
        once_only(ch, &d, &format!("{} with byte {} changed", frames()[i].what, k - s), None, usize::MAX, k % 2 == 0, if second && k >= e { &first } else { &[] })?;
        d[k] ^= m;
    }
    for k in s + 1..e { once_only(ch, &b.bytes[..k], &format!("{} cut after {} bytes", frames()[i].what, k - s), None, [usize::MAX, 1, 5][k % 3], k % 2 == 1, &[])?; }
    // not damaged at all
    for owning in [false, true] { once_only(ch, &b.bytes, "whole stream", None, 17, owning, &b.inter())?; }
    ch.state(hash_bytes(6, &b.bytes));
    heartbeat();
    Ok(())
}

// ------------------------------------------------------------------ C07, C08, C09, C17
pub fn buffers(ch: &mut Ch) -> R {
    let f = some(ch);
    let n = f.blk.data.len();
    if n > 40_000 && ch.quick() { return Ok(()); }
    for len in [0, 1, n - 1, n, n + 1, 2 * n] { for cap in [0, n, n + 1, 3 * n] { for fill in [0x2a2a_2a2ai32, -1] {
        if n > 3000 && (len + cap) % 3 != 0 && ch.quick() { continue; }
        read(ch, &f.bytes, &f.blk, vec_of(len, cap, fill), false, &|| format!("{}, buffer of length {} capacity {}", f.what, len, cap.max(len)))?;
    } } }
    ch.state(hash_bytes(7, &f.bytes[..f.bytes.len().min(500)]));
    Ok(())
}
/// Fresh memory, two fillings.
pub fn memory(ch: &mut Ch) -> R {
    let (i, b) = stream(ch);
    let d = &b.bytes;
    for p in [0xAAu8, 0x55] {
        let got = nopanic(d, || poison(p, || full(&d[..])))?;
        if got.meta != Ok(meta_expect(b)) || got.obs != expect_all(b) { return violb(format!("{} with fresh memory filled with {:#x}: {}", frames()[i].what, p, show(&got.obs)), d); }
        let s = nopanic(d, || poison(p, || FlacReader::new(&d[..]).map(|r| samples(&mut r.into_samples(), 1 << 20)).map_err(|e| ec(&e))))?;
        if s != Ok(Smp { v: b.inter(), end: Ok(()) }) { return violb(format!("{} with fresh memory filled with {:#x}: samples differ", frames()[i].what, p), d); }
    }
    ch.execs(4, 4);
    ch.state(hash_bytes(8, d));
    Ok(())
}
pub fn accessors(ch: &mut Ch) -> R {
    let f = some(ch);
    let g = match nopanic(&f.bytes, || FrameReader::new(SliceRb::new(&f.bytes)).read_next_or_eof(vec![]))? { Ok(Some(g)) => g, r => return violb(format!("{}: {:?}", f.what, r.map(|x| x.is_some())), &f.bytes) };
    consistent(&g, &f.blk, &f.bytes)?;
    ch.exec(true);
    ch.state(hash_bytes(9, &f.bytes[..f.bytes.len().min(500)]));
    ch.sample(|| f.what.clone());
    Ok(())
}
pub fn agree(ch: &mut Ch) -> R {
    let v = pool_streams();
    let b = &v[ch.choose(v.len())];
    if b.blks.iter().map(|x| x.data.len()).sum::<usize>() > ch.t(1500, 20_000) { return Ok(()); }
    three_ways(ch, b)
}
pub fn big_blocks(ch: &mut Ch) -> R {
    let v: Vec<usize> = sizes(0).into_iter().filter(|&n| n > 100).collect();
    let n = v[ch.choose(v.len())];
    let m = modes();
    let chan = m[ch.choose(m.len())];
    if ch.quick() && n > 4000 && chan.n() > 2 && (n + chan.n()) % 3 != 0 && ![8191, 8192, 16383, 16384, 16385, 21845, 21846, 32767, 32768, 65535].contains(&n) { return Ok(()); }
    let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| (0..n).map(|i| ((i * 7 + (i >> 7) + (i >> 13) * 5 + c * 31) % 240) as i64 - 120).collect()).collect();
    let d = quick_frame(chan, 8, true, 0xf_0000_0000 - n as u64, &pcm, &[sub(Kind::Verbatim)]).unwrap();
    let blk = Blk { time: 0xf_0000_0000 - n as u64, dur: n as u32, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
    match nopanic(&d, || FrameReader::new(SliceRb::new(&d)).read_next_or_eof(vec![]))? {
        Ok(Some(g)) => { consistent(&g, &blk, &d)?; let b = nopanic(&d, || g.into_buffer())?; if b.len() < blk.data.len() || b[..blk.data.len()] != blk.data[..] { return violb(format!("{:?} x {}: into_buffer()", chan, n), &d); } }
        r => return violb(format!("{:?} x {}: {:?}", chan, n, r.map(|x| x.is_some())), &d),
    }
    let info = Info { minb: 16, maxb: 65535, ..Info::new(16, chan.n() as u32, 8, 0) };
    let mut s = head(&info, &[]);
    s.extend(&d);
    s.extend(&quick_frame(Chan::Ind(1), 8, true, 9, &[vec![3; 5]], &[sub(Kind::Constant)]).unwrap());
    let mut want = inter(&blk);
    want.extend([3; 5]);
    for owning in [false, true] {
        let got = nopanic(&s, || if owning { FlacReader::new(&s[..]).map(|r| samples(&mut r.into_samples(), 1 << 20)).map_err(|e| ec(&e)) } else { FlacReader::new(&s[..]).map(|mut r| samples(&mut r.samples(), 1 << 20)).map_err(|e| ec(&e)) })?;
        match got { Ok(Smp { ref v, end: Ok(()) }) if *v == want => {} _ => return violb(format!("{:?} x {}: by samples (owning {})", chan, n, owning), &s[..s.len().min(200)]) }
    }
    ch.execs(3, 3);
    ch.state(mix(n as u64, chan.code() as u64));
    ch.sample(|| format!("{:?} x {} samples", chan, n));
    heartbeat();
    Ok(())
}
pub fn times(ch: &mut Ch) -> R {
    let v = pool_streams();
    let b = &v[ch.choose(v.len())];
    let d = &b.bytes;
    let want: Vec<(u64, u32)> = b.blks.iter().map(|x| (x.time, x.dur)).collect();
    for k in 0..2 {
        let got: Result<Vec<(u64, u32)>, E> = nopanic(d, || {
            let mut out = vec![];
            let mut go = |o: claxon::Result<Option<claxon::frame::Block>>| match o { Ok(Some(x)) => { out.push((x.time(), x.duration())); Ok(true) } Ok(None) => Ok(false), Err(e) => Err(ec(&e)) };
            if k == 0 { let mut r = FlacReader::new(&d[..]).map_err(|e| ec(&e))?; let mut fr = r.blocks(); while go(fr.read_next_or_eof(vec![]))? {} }
            else { let mut fr = FrameReader::new(SliceRb::new(b.audio())); while go(fr.read_next_or_eof(vec![]))? {} }
            Ok(out)
        })?;
        if got != Ok(want.clone()) { return violb(format!("times and durations {:?}, expected {:?}", got, want), d); }
    }
    ch.execs(2, 2);
    ch.state(hash_bytes(10, &b.audio()[..b.audio().len().min(500)]));
    Ok(())
}
pub fn allocations(ch: &mut Ch) -> R {
    let f = some(ch);
    let n = f.blk.data.len() as u64;
    frame_mem(&f.bytes, n, ch, &|| f.what.clone())?;
    let k = f.bytes.len();
    for cut in [5, k / 2, k - 1] { if cut < k { frame_mem(&f.bytes[..cut], n, ch, &|| format!("{} cut after {}", f.what, cut))?; } }
    ch.state(hash_bytes(11, &f.bytes[..k.min(500)]));
    Ok(())
}

// ------------------------------------------------------------------ C20
/// Any frame after any other.
pub fn pairs(ch: &mut Ch) -> R {
    static C: std::sync::OnceLock<Vec<&'static Pf>> = std::sync::OnceLock::new();
    let thorough = !ch.quick();
    let v = C.get_or_init(|| {
        let s: Vec<&Pf> = frames().iter().filter(|f| f.blk.data.len() <= 3000).collect();
        let big: Vec<&Pf> = frames().iter().filter(|f| f.blk.data.len() > 3000).collect();
        s.into_iter().step_by(if thorough { 1 } else { 3 }).chain(big.into_iter().step_by(if thorough { 5 } else { 17 })).collect()
    });
    let a = v[ch.choose(v.len())];
    for b in v {
        if a.blk.data.len() > 3000 && b.blk.data.len() > 3000 && (a.blk.data.len() + b.blk.data.len()) % 7 != 0 { continue; }
        let x = nopanic(&a.bytes, || FrameReader::new(SliceRb::new(&a.bytes)).read_next_or_eof(vec![]))?;
        if !matches!(x, Ok(Some(_))) { return violb(format!("{} after {}: {:?}", a.what, b.what, x.map(|x| x.is_some())), &a.bytes); }
        read(ch, &b.bytes, &b.blk, vec![], false, &|| format!("{} read after another reader had read {}", b.what, a.what))?;
    }
    heartbeat();
    ch.state(hash_bytes(12, &a.bytes[..a.bytes.len().min(500)]));
    ch.sample(|| format!("each of {} frames after {}", v.len(), a.what));
    Ok(())
}

// ------------------------------------------------------------------ C21
pub fn demand(ch: &mut Ch) -> R {
    let (i, b) = stream(ch);
    for (k, chunk) in [1usize, 2, 3, 7, cap()].into_iter().enumerate() { dm_check(ch, b, chunk, (i + k) % 5)?; }
    if !ch.quick() { for mode in 0..5 { for chunk in [1usize, 4, 5, 13] { dm_check(ch, b, chunk, mode)?; } } }
    Ok(())
}
fn consumed(ch: &mut Ch, f: &[u8], w: &Blk, tail: &[u8], what: &dyn Fn() -> String) -> R {
    let d = [f, tail].concat();
    let mut c = Cursor::new(&d[..]);
    let o = nopanic(&d, || FrameReader::new(&mut c).read_next_or_eof(vec![]))?;
    ch.exec(true);
    match o { Ok(Some(g)) => if let Err(m) = same(&g, w) { return violb(format!("{}: {}", what(), m), &d); }, o => return violb(format!("{}: {:?}", what(), o.map(|x| x.is_some())), &d) }
    if c.position() != f.len() as u64 { return violb(format!("{}, followed by {:x?}: the cursor is at {}, the frame has {} bytes", what(), &tail[..tail.len().min(4)], c.position(), f.len()), &d); }
    let mut s = SliceRb::new(&d);
    let _ = nopanic(&d, || FrameReader::new(&mut s).read_next_or_eof(vec![]))?;
    if s.pos != f.len() { return violb(format!("{}, followed by {:x?}: a custom input is left at {}, the frame has {} bytes", what(), &tail[..tail.len().min(4)], s.pos, f.len()), &d); }
    Ok(())
}
pub fn consumed_values(ch: &mut Ch) -> R {
    let hi = ch.choose(256) as i64;
    for lo in 0..256i64 {
        let s = (hi << 8 | lo) as u16 as i16 as i64;
        let f = quick_frame(Chan::Ind(1), 16, true, 0, &[vec![s; 16]], &[sub(Kind::Constant)]).unwrap();
        let w = Blk { time: 0, dur: 16, ch: 1, data: vec![s as i32; 16] };
        for tail in [&[0u8; 5][..], &[0xff; 5], &f[f.len() - 2..], &f[..]] { consumed(ch, &f, &w, tail, &|| format!("frame with checksum {:02x}{:02x}", f[f.len() - 2], f[f.len() - 1]))?; }
    }
    ch.state(hi as u64);
    ch.sample(|| format!("frames with 16-bit values {:#x}.. (together every checksum), 4 continuations", hi << 8));
    Ok(())
}
pub fn consumed_frames(ch: &mut Ch) -> R {
    let f = some(ch);
    let k = f.bytes.len();
    for tail in [&[][..], &[0u8], &[0xff], &[0, 0, 0, 0], &[0xff, 0xf8, 0xc9, 0x18], &f.bytes[k - 2..], &[0x80, 0x01]] { consumed(ch, &f.bytes, &f.blk, tail, &|| f.what.clone())?; }
    ch.state(hash_bytes(13, &f.bytes[..k.min(500)]));
    Ok(())
}
