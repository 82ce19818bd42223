// Minimal FLAC writer for the demonstrations.
#![allow(dead_code)]
use std::io::{self, Read};
pub fn crc8(b: &[u8]) -> u8 { let mut c = 0u8; for &x in b { c ^= x; for _ in 0..8 { c = if c & 0x80 != 0 { (c << 1) ^ 7 } else { c << 1 }; } } c }
pub fn crc16(b: &[u8]) -> u16 { let mut c = 0u16; for &x in b { c ^= (x as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 }; } } c }
#[derive(Default, Clone)]
pub struct W { pub v: Vec<u8>, pub n: u32 }
impl W {
    pub fn new() -> W { W::default() }
    pub fn put(&mut self, val: u64, bits: u32) -> &mut W { for i in (0..bits).rev() { if self.n % 8 == 0 { self.v.push(0); } let b = (val >> i & 1) as u8; *self.v.last_mut().unwrap() |= b << (7 - self.n % 8); self.n += 1; } self }
    pub fn s(&mut self, val: i64, bits: u32) -> &mut W { self.put(val as u64 & ((1u64 << bits) - 1), bits) }
    pub fn unary(&mut self, q: u32) -> &mut W { for _ in 0..q { self.put(0, 1); } self.put(1, 1) }
    /// One Rice coded value.
    pub fn rice(&mut self, e: i64, k: u32) -> &mut W { let u = if e >= 0 { 2 * e as u64 } else { (-2 * e - 1) as u64 }; self.unary((u >> k) as u32); self.put(u & ((1u64 << k) - 1), k) }
    pub fn verbatim(&mut self, s: &[i64], bps: u32) -> &mut W { self.put(2, 8); for &x in s { self.s(x, bps); } self }
    pub fn constant(&mut self, x: i64, bps: u32) -> &mut W { self.put(0, 8); self.s(x, bps) }
}
pub fn varint(n: u64) -> Vec<u8> {
    if n < 0x80 { return vec![n as u8]; }
    let mut len = 2; while n >> (len * 5 + 1) != 0 { len += 1; }
    let mut v = vec![];
    for i in (0..len).rev() { let x = (n >> (6 * i) & 63) as u8; v.push(if i == len - 1 { ((0xff00u32 >> len) as u8) | (n >> (6 * i)) as u8 } else { 0x80 | x }); }
    v
}
pub fn header(variable: bool, number: u64, bs: usize, ch: u8, bps: u8) -> Vec<u8> {
    let mut v = vec![0xff, 0xf8 | variable as u8, 0x70, ch << 4 | bps << 1];
    v.extend(varint(number));
    v.extend(((bs - 1) as u16).to_be_bytes());
    let c = crc8(&v); v.push(c); v
}
pub const B8: u8 = 1; pub const B12: u8 = 2; pub const B16: u8 = 4; pub const B20: u8 = 5; pub const B24: u8 = 6;
pub fn close(mut v: Vec<u8>, body: &W) -> Vec<u8> { v.extend(&body.v); let c = crc16(&v); v.extend(c.to_be_bytes()); v }
pub fn frame(variable: bool, number: u64, bs: usize, ch: u8, bps: u8, body: &W) -> Vec<u8> { close(header(variable, number, bs, ch, bps), body) }
pub fn info_full(min: u16, max: u16, minf: u32, maxf: u32, rate: u32, ch: u32, bps: u32, samples: u64) -> Vec<u8> {
    let mut w = W::new();
    w.put(min as u64, 16).put(max as u64, 16).put(minf as u64, 24).put(maxf as u64, 24).put(rate as u64, 20).put(ch as u64 - 1, 3).put(bps as u64 - 1, 5).put(samples, 36);
    for i in 0..16 { w.put(i + 1, 8); }
    w.v
}
pub fn info(min: u16, max: u16, ch: u32, bps: u32) -> Vec<u8> { info_full(min, max, 0, 0, 44100, ch, bps, 0) }
pub fn stream(info: Vec<u8>, blocks: &[(u8, Vec<u8>)], frames: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"fLaC".to_vec();
    let mut all = vec![(0u8, info)]; all.extend(blocks.iter().cloned());
    let n = all.len();
    for (i, (t, b)) in all.into_iter().enumerate() { v.push(t | if i == n - 1 { 0x80 } else { 0 }); v.extend(&(b.len() as u32).to_be_bytes()[1..]); v.extend(b); }
    for f in frames { v.extend(f); }
    v
}
pub fn vc(vendor: &[u8], comments: &[&[u8]]) -> Vec<u8> {
    let mut v = (vendor.len() as u32).to_le_bytes().to_vec(); v.extend(vendor);
    v.extend((comments.len() as u32).to_le_bytes());
    for c in comments { v.extend((c.len() as u32).to_le_bytes()); v.extend(*c); }
    v
}
/// A 16 bit mono frame of 16 verbatim samples starting at `x`.
pub fn mono16(number: u64, x: i64) -> Vec<u8> { let s: Vec<i64> = (0..16).map(|i| x + i).collect(); let mut w = W::new(); w.verbatim(&s, 16); frame(false, number, 16, 0, B16, &w) }
/// A source that gives out its parts one per read; None is an error of the given kind.
pub struct Feed { pub parts: Vec<Option<Vec<u8>>>, pub kind: io::ErrorKind, pub i: usize, pub reads: std::rc::Rc<std::cell::Cell<usize>> }
impl Feed { pub fn new(parts: Vec<Option<Vec<u8>>>, kind: io::ErrorKind) -> Feed { Feed { parts, kind, i: 0, reads: Default::default() } } }
impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        while self.i < self.parts.len() {
            match self.parts[self.i].take() {
                None => { self.i += 1; return Err(io::Error::new(self.kind, "feed")); }
                Some(p) => { let k = p.len().min(buf.len()); buf[..k].copy_from_slice(&p[..k]); if k < p.len() { self.parts[self.i] = Some(p[k..].to_vec()); } else { self.i += 1; } if k > 0 { return Ok(k); } }
            }
        }
        Ok(0)
    }
}
