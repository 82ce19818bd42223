//! Independent reference decoder, written from the format description: indexes
//! bits of a byte slice, computes in 128-bit integers, no buffering.
#![allow(dead_code)]
use crate::enc::{crc16, crc8, Blk, Info};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rej { Eof, Format, Unsup }
/// Kind of failure with a reason, for messages.
pub type Rj = (Rej, &'static str);

#[derive(Clone, Debug)]
pub struct Frame { pub variable: bool, pub number: u64, pub bs: usize, pub ch: usize, pub bps: u32, pub data: Vec<i64>, pub hlen: usize, pub len: usize,
    /// The frame is well-formed in every respect: it must be accepted, and its samples are specified.
    pub strict: bool }
impl Frame {
    pub fn blk(&self, time: u64) -> Blk { Blk { time, dur: self.bs as u32, ch: self.ch as u32, data: self.data.iter().map(|&x| x as i32).collect() } }
}

struct Bits<'a> { b: &'a [u8], p: usize }
impl<'a> Bits<'a> {
    fn bit(&mut self) -> Result<u64, Rj> {
        let x = *self.b.get(self.p >> 3).ok_or((Rej::Eof, "eof"))?;
        let r = x >> (7 - (self.p & 7)) & 1;
        self.p += 1;
        Ok(r as u64)
    }
    fn get(&mut self, n: u32) -> Result<u64, Rj> {
        if self.p + n as usize > self.b.len() * 8 { self.p = self.b.len() * 8; return Err((Rej::Eof, "eof")); }
        let mut r = 0u64;
        let mut left = n as usize;
        while left > 0 {
            let off = self.p & 7;
            let take = (8 - off).min(left);
            let v = (self.b[self.p >> 3] as u64 >> (8 - off - take)) & ((1 << take) - 1);
            r = r << take | v;
            self.p += take;
            left -= take;
        }
        Ok(r)
    }
    fn sget(&mut self, n: u32) -> Result<i64, Rj> { let v = self.get(n)?; Ok(if v >> (n - 1) & 1 == 1 { v as i64 - (1i64 << n) } else { v as i64 }) }
    fn unary(&mut self) -> Result<u64, Rj> {
        let mut n = 0;
        loop {
            if self.p & 7 == 0 && self.b.get(self.p >> 3) == Some(&0) { n += 8; self.p += 8; continue; }
            if self.bit()? == 1 { return Ok(n); }
            n += 1;
        }
    }
}
fn fmt<T>(m: &'static str) -> Result<T, Rj> { Err((Rej::Format, m)) }

/// Decodes the subframe at bit `p`. Returns samples, new bit position, strictness.
pub fn subframe(b: &[u8], p: usize, bps: u32, bs: usize) -> Result<(Vec<i64>, usize, bool), Rj> {
    let mut r = Bits { b, p };
    let mut strict = true;
    if r.bit()? == 1 { return fmt("subframe padding bit"); }
    let ty = r.get(6)?;
    enum T { C, V, F(usize), L(usize) }
    let t = match ty { 0 => T::C, 1 => T::V, 8..=12 => T::F(ty as usize - 8), 32..=63 => T::L(ty as usize - 31), _ => return fmt("reserved subframe type") };
    let wasted = if r.bit()? == 1 { r.unary()? + 1 } else { 0 };
    if wasted >= bps as u64 { return fmt("wasted bits leave nothing"); }
    let wasted = wasted as u32;
    let sb = bps - wasted;
    let (lo, hi) = (-(1i64 << (sb - 1)), (1i64 << (sb - 1)) - 1);
    let mut s: Vec<i64> = Vec::with_capacity(bs);
    match t {
        T::C => { let v = r.sget(sb)?; s = vec![v; bs]; }
        T::V => for _ in 0..bs { s.push(r.sget(sb)?); },
        T::F(o) | T::L(o) => {
            if o > bs { return fmt("order exceeds block size"); }
            for _ in 0..o { s.push(r.sget(sb)?); }
            let (coefs, shift): (Vec<i64>, u32) = if let T::L(_) = t {
                let prec = r.get(4)? as u32 + 1;
                if prec == 16 { return fmt("invalid precision"); }
                let sh = r.sget(5)?;
                if sh < 0 { return Err((Rej::Unsup, "negative shift")); }
                let mut c = vec![];
                for _ in 0..o { c.push(r.sget(prec)?); }
                (c, sh as u32)
            } else { (crate::enc::FIXED[o].to_vec(), 0) };
            let kb = match r.get(2)? { 0 => 4, 1 => 5, _ => return fmt("reserved residual method") };
            let po = r.get(4)? as usize;
            if bs % (1 << po) != 0 { return fmt("partition order does not divide"); }
            let pl = bs >> po;
            if pl < o { return fmt("first partition smaller than order"); }
            for part in 0..1usize << po {
                let k = r.get(kb)? as u32;
                if k == (1 << kb) - 1 { return Err((Rej::Unsup, "escaped partition")); }
                let n = if part == 0 { pl - o } else { pl };
                for _ in 0..n {
                    let q = r.unary()?;
                    let u = (q as u128) << k | r.get(k)? as u128;
                    let e: i128 = if u & 1 == 1 { -((u >> 1) as i128) - 1 } else { (u >> 1) as i128 };
                    if e.abs() >= 1 << 31 { strict = false; }
                    let v = if strict {
                        let i = s.len();
                        let pr: i128 = coefs.iter().enumerate().map(|(j, &c)| c as i128 * s[i - 1 - j] as i128).sum::<i128>() >> shift;
                        let v = pr + e;
                        if v < lo as i128 || v > hi as i128 { strict = false; 0 } else { v as i64 }
                    } else { 0 };
                    s.push(v);
                }
            }
        }
    }
    if wasted > 0 { for x in &mut s { *x <<= wasted; } }
    Ok((s, r.p, strict))
}

#[derive(Clone, Debug)]
pub struct Head { pub variable: bool, pub number: u64, pub bs: usize, pub ch_code: u8, pub bps: Option<u32>, pub len: usize, pub overlong: bool }
pub fn header(b: &[u8]) -> Result<Head, Rj> {
    let mut p = 0;
    let mut next = || { let x = *b.get(p).ok_or((Rej::Eof, "eof in header"))?; p += 1; Ok::<u8, Rj>(x) };
    let (b0, b1) = (next()?, next()?);
    if b0 != 0xff || b1 & 0xfc != 0xf8 { return fmt("sync"); }
    if b1 & 2 != 0 { return fmt("reserved bit"); }
    let variable = b1 & 1 == 1;
    let b2 = next()?;
    let (bc, sc) = (b2 >> 4, b2 & 15);
    if bc == 0 { return fmt("reserved block size code"); }
    if sc == 15 { return fmt("invalid sample rate code"); }
    let b3 = next()?;
    let ch_code = b3 >> 4;
    if ch_code > 10 { return fmt("reserved channel assignment"); }
    let bps = match b3 >> 1 & 7 { 0 => None, 1 => Some(8), 2 => Some(12), 4 => Some(16), 5 => Some(20), 6 => Some(24), _ => return fmt("reserved sample size") };
    if b3 & 1 == 1 { return fmt("reserved bit after sample size"); }
    let f = next()?;
    let (n, mut number) = match f { 0..=0x7f => (0, f as u64), 0xc0..=0xdf => (1, f as u64 & 31), 0xe0..=0xef => (2, f as u64 & 15), 0xf0..=0xf7 => (3, f as u64 & 7),
        0xf8..=0xfb => (4, f as u64 & 3), 0xfc..=0xfd => (5, f as u64 & 1), 0xfe => (6, 0), _ => return fmt("bad coded number") };
    for _ in 0..n { let c = next()?; if c & 0xc0 != 0x80 { return fmt("bad coded number continuation"); } number = number << 6 | c as u64 & 63; }
    if !variable && number >= 1 << 31 { return fmt("frame number too large"); }
    let overlong = n > 0 && crate::enc::varint_len(number) != n + 1;
    let bs = match bc { 6 => next()? as usize + 1, 7 => (next()? as usize) << 8 | next()? as usize, c => crate::enc::bs_of_code(c).unwrap() };
    let bs = if bc == 7 { bs + 1 } else { bs };
    if bs > 65535 { return fmt("block size 65536"); }
    match sc { 12 => { next()?; } 13 | 14 => { next()?; next()?; } _ => {} }
    let c = next()?;
    if crc8(&b[..p - 1]) != c { return fmt("header checksum"); }
    Ok(Head { variable, number, bs, ch_code, bps, len: p, overlong })
}

/// Where the subframes of the frame at the start of `b` end (its 16-bit checksum begins), checksums aside.
pub fn frame_end(b: &[u8]) -> Option<usize> {
    let h = header(b).ok()?;
    let ch = if h.ch_code < 8 { h.ch_code as usize + 1 } else { 2 };
    let mut p = h.len * 8;
    for c in 0..ch {
        let extra = match h.ch_code { 8 | 10 => (c == 1) as u32, 9 => (c == 0) as u32, _ => 0 };
        p = subframe(b, p, h.bps? + extra, h.bs).ok()?.1;
    }
    Some((p + 7) / 8)
}

/// Decodes the frame at the start of `b` (which must not be empty).
pub fn frame(b: &[u8]) -> Result<Frame, Rj> {
    let h = header(b)?;
    let bps = match h.bps { Some(x) => x, None => return Err((Rej::Unsup, "sample size from stream info")) };
    let ch = if h.ch_code < 8 { h.ch_code as usize + 1 } else { 2 };
    let mut p = h.len * 8;
    let mut strict = !h.overlong;
    let mut chans: Vec<Vec<i64>> = vec![];
    for c in 0..ch {
        let extra = match h.ch_code { 8 | 10 => (c == 1) as u32, 9 => (c == 0) as u32, _ => 0 };
        let (s, q, st) = subframe(b, p, bps + extra, h.bs)?;
        p = q;
        strict &= st;
        chans.push(s);
    }
    if p & 7 != 0 { if b[p >> 3] & ((1 << (8 - (p & 7))) - 1) != 0 { strict = false; } p = (p + 7) & !7; }
    let n = p / 8;
    if n + 2 > b.len() { return Err((Rej::Eof, "eof in footer")); }
    if crc16(&b[..n]) != u16::from_be_bytes([b[n], b[n + 1]]) { return fmt("frame checksum"); }
    if strict {
        for i in 0..h.bs {
            let (a, z) = if ch == 2 { (chans[0][i], chans[1][i]) } else { break };
            let (l, r) = match h.ch_code { 8 => (a, a - z), 9 => (a + z, z), 10 => { let m = 2 * a + (z & 1); ((m + z) / 2, (m - z) / 2) } _ => break };
            chans[0][i] = l; chans[1][i] = r;
        }
        let lim = 1i64 << (bps - 1);
        if chans.iter().flatten().any(|&x| x < -lim || x >= lim) { strict = false; }
    }
    Ok(Frame { variable: h.variable, number: h.number, bs: h.bs, ch, bps, data: chans.concat(), hlen: h.len, len: n + 2, strict })
}

/// All frames in `b` up to the first rejection or the clean end.
pub fn frames(b: &[u8]) -> (Vec<(usize, Frame)>, Option<Rj>, usize) {
    let mut v = vec![];
    let mut p = 0;
    loop {
        if p == b.len() { return (v, None, p); }
        match frame(&b[p..]) { Ok(f) => { let l = f.len; v.push((p, f)); p += l; } Err(e) => return (v, Some(e), p) }
    }
}

// ------------------------------------------------------------ metadata

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MBlock { Info(Info), Padding(u32), App(u32, Vec<u8>), Vorbis { vendor: String, comments: Vec<(String, usize)> }, Reserved }
const BIG: u32 = 10 * 1024 * 1024;
/// Parses one metadata block body; `b` starts at the body. Returns the block; its length is exactly `len`.
pub fn mblock(ty: u8, len: u32, b: &[u8]) -> Result<MBlock, Rj> {
    match ty {
        0 if len != 34 => return fmt("streaminfo length"),
        4 if len < 8 => return fmt("comment block too short"),
        2 if len < 4 => return fmt("application block too short"),
        2 | 4 if len > BIG => return Err((Rej::Unsup, "huge block")),
        127 => return fmt("block type 127"),
        _ => {}
    }
    if (b.len() as u64) < len as u64 && ty != 4 { return Err((Rej::Eof, "eof in block")); }
    match ty {
        0 => info(&b[..34]).map(MBlock::Info),
        1 | 3 | 5 | 6 => Ok(MBlock::Padding(len)),
        2 => Ok(MBlock::App(u32::from_be_bytes([b[0], b[1], b[2], b[3]]), b[4..len as usize].to_vec())),
        4 => vc(len, b),
        _ => Ok(MBlock::Reserved),
    }
}
pub fn info(b: &[u8]) -> Result<Info, Rj> {
    let mut r = Bits { b, p: 0 };
    let i = Info { minb: r.get(16)? as u16, maxb: r.get(16)? as u16, minf: r.get(24)? as u32, maxf: r.get(24)? as u32, rate: r.get(20)? as u32,
        ch: r.get(3)? as u32 + 1, bps: r.get(5)? as u32 + 1, samples: r.get(36)?, md5: { let mut m = [0u8; 16]; for x in &mut m { *x = r.get(8)? as u8 } m } };
    if i.minb < 16 { return fmt("min block size below 16"); }
    if i.minb > i.maxb { return fmt("min block size above max"); }
    if i.maxf != 0 && i.minf > i.maxf { return fmt("min frame size above max"); }
    if i.rate == 0 || i.rate > 655350 { return fmt("sample rate"); }
    Ok(i)
}
fn vc(len: u32, b: &[u8]) -> Result<MBlock, Rj> {
    // Everything must fit in `len` bytes exactly; running out of block is a format error,
    // running out of input (b shorter than the block) is an end-of-file error.
    let mut p = 0usize;
    let len = len as usize;
    fn take<'a>(b: &'a [u8], p: &mut usize, n: usize, len: usize) -> Result<&'a [u8], Rj> {
        if n > len - *p { return fmt("exceeds block"); }
        if *p + n > b.len() { return Err((Rej::Eof, "eof in comments")); }
        let s = &b[*p..*p + n];
        *p += n;
        Ok(s)
    }
    let le = |s: &[u8]| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize;
    let vl = le(take(b, &mut p, 4, len)?);
    let vendor = match std::str::from_utf8(take(b, &mut p, vl, len)?) { Ok(s) => s.to_string(), Err(_) => return fmt("vendor not UTF-8") };
    let n = le(take(b, &mut p, 4, len)?);
    let mut comments = vec![];
    if n > len { return fmt("too many comments"); }
    for _ in 0..n {
        let cl = le(take(b, &mut p, 4, len)?);
        let c = take(b, &mut p, cl, len)?;
        if c.is_empty() { continue; }
        let eq = match c.iter().position(|&x| x == b'=') { Some(e) => e, None => return fmt("no equals sign") };
        if c[..eq].iter().any(|&x| !(0x20..=0x7d).contains(&x)) { return fmt("bad name byte"); }
        match std::str::from_utf8(c) { Ok(s) => comments.push((s.to_string(), eq)), Err(_) => return fmt("comment not UTF-8") }
    }
    if p != len { return fmt("excess data"); }
    Ok(MBlock::Vorbis { vendor, comments })
}
/// A block with its header at the start of `b`: (last, type, length, block).
pub fn mblock_h(b: &[u8]) -> (Result<MBlock, Rj>, bool, usize) {
    if b.len() < 4 { return (Err((Rej::Eof, "eof in block header")), false, b.len()); }
    let len = u32::from_be_bytes([0, b[1], b[2], b[3]]);
    (mblock(b[0] & 0x7f, len, &b[4..]), b[0] & 0x80 != 0, 4 + len as usize)
}

#[derive(Clone, Debug)]
pub struct Meta { pub info: Info, pub vc: Option<(String, Vec<(String, usize)>)>, pub end: usize, pub nblocks: usize, /// end of the last block needed in metadata-only mode
    pub need: usize }
/// Reads the metadata of a stream the way a reader with these options should.
pub fn meta(b: &[u8], metadata_only: bool, want_vc: bool) -> Result<Meta, Rj> {
    if b.len() < 4 { return Err((Rej::Eof, "eof in marker")); }
    if &b[..4] != b"fLaC" { return fmt("marker"); }
    let mut p = 4;
    let mut m: Option<Meta> = None;
    loop {
        let (r, last, len) = mblock_h(&b[p..]);
        let blk = r?;
        p += len;
        match (&mut m, blk) {
            (None, MBlock::Info(i)) => m = Some(Meta { info: i, vc: None, end: p, nblocks: 0, need: p }),
            (None, _) => return fmt("stream info missing"),
            (Some(_), MBlock::Info(_)) => return fmt("second stream info"),
            (Some(x), MBlock::Vorbis { vendor, comments }) => { if x.vc.is_some() { return fmt("second comment block"); } x.vc = Some((vendor, comments)); }
            _ => {}
        }
        let x = m.as_mut().unwrap();
        x.end = p;
        x.nblocks += 1;
        if last || metadata_only && (!want_vc || x.vc.is_some()) { break; }
    }
    let mut m = m.unwrap();
    if !want_vc { m.vc = None; }
    Ok(m)
}
