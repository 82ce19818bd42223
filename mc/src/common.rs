//! Observing the code under test through its public interface.
#![allow(dead_code)]
use crate::enc::{Blk, Built, Info};
use crate::engine::*;
use crate::refdec::Rej;
use claxon::frame::{Block, FrameReader};
use claxon::input::ReadBytes;
use claxon::{Error, FlacReader, FlacReaderOptions};
use std::io::ErrorKind;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E { Io(ErrorKind), Format, Unsup }
pub fn ec(e: &Error) -> E { match e { Error::IoError(e) => E::Io(e.kind()), Error::FormatError(_) => E::Format, Error::Unsupported(_) => E::Unsup } }
pub const EOFE: E = E::Io(ErrorKind::UnexpectedEof);
pub fn rej(r: Rej) -> E { match r { Rej::Eof => EOFE, Rej::Format => E::Format, Rej::Unsup => E::Unsup } }
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ob { Blk(Blk), End, Err(E) }
impl Ob {
    pub fn short(&self) -> String { match self { Ob::Blk(b) => format!("block(time {}, dur {}, ch {}, {:?}{})", b.time, b.dur, b.ch, &b.data[..b.data.len().min(12)], if b.data.len() > 12 { ".." } else { "" }), x => format!("{:?}", x) } }
}
pub fn blk(b: &Block) -> Blk {
    let mut data = Vec::with_capacity(b.len() as usize);
    for c in 0..b.channels() { data.extend_from_slice(b.channel(c)); }
    Blk { time: b.time(), dur: b.duration(), ch: b.channels(), data }
}
/// Compares a delivered block with an expected one without building an intermediate.
pub fn same(b: &Block, w: &Blk) -> Result<(), String> {
    if b.time() != w.time || b.duration() != w.dur || b.channels() != w.ch || b.len() != w.dur * w.ch {
        return Err(format!("block shape: got time {} duration {} channels {} len {}, expected time {} duration {} channels {}", b.time(), b.duration(), b.channels(), b.len(), w.time, w.dur, w.ch));
    }
    for c in 0..w.ch {
        let (g, e) = (b.channel(c), &w.data[(c * w.dur) as usize..((c + 1) * w.dur) as usize]);
        if g != e { let i = (0..e.len()).find(|&i| g[i] != e[i]).unwrap(); return Err(format!("channel {} sample {}: got {}, expected {}", c, i, g[i], e[i])); }
    }
    Ok(())
}
pub fn next<R: ReadBytes>(fr: &mut FrameReader<R>, buf: Vec<i32>) -> Ob {
    match fr.read_next_or_eof(buf) { Ok(Some(b)) => Ob::Blk(blk(&b)), Ok(None) => Ob::End, Err(e) => Ob::Err(ec(&e)) }
}
/// Reads to the end or the first error, at most `max` blocks.
pub fn drain<R: ReadBytes>(fr: &mut FrameReader<R>, max: usize) -> Vec<Ob> {
    let mut v = vec![];
    let mut buf = vec![];
    while v.len() < max {
        match fr.read_next_or_eof(buf) {
            Ok(Some(b)) => { v.push(Ob::Blk(blk(&b))); buf = b.into_buffer(); }
            Ok(None) => { v.push(Ob::End); break; }
            Err(e) => { v.push(Ob::Err(ec(&e))); break; }
        }
    }
    v
}
pub fn expect_all(b: &Built) -> Vec<Ob> { let mut v: Vec<Ob> = b.blks.iter().cloned().map(Ob::Blk).collect(); v.push(Ob::End); v }
pub fn show(v: &[Ob]) -> String { v.iter().map(|o| o.short()).collect::<Vec<_>>().join("; ") }

/// Everything metadata-related a reader shows.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct MetaOb { pub info: (u16, u16, Option<u32>, Option<u32>, u32, u32, u32, Option<u64>, [u8; 16]), pub vendor: Option<String>, pub tags: Vec<(String, String)> }
pub fn info_ob(i: &claxon::metadata::StreamInfo) -> (u16, u16, Option<u32>, Option<u32>, u32, u32, u32, Option<u64>, [u8; 16]) {
    (i.min_block_size, i.max_block_size, i.min_frame_size, i.max_frame_size, i.sample_rate, i.channels, i.bits_per_sample, i.samples, i.md5sum)
}
pub fn info_ref(i: &Info) -> (u16, u16, Option<u32>, Option<u32>, u32, u32, u32, Option<u64>, [u8; 16]) {
    let z = |x: u32| if x == 0 { None } else { Some(x) };
    (i.minb, i.maxb, z(i.minf), z(i.maxf), i.rate, i.ch, i.bps, if i.samples == 0 { None } else { Some(i.samples) }, i.md5)
}
pub fn meta_ob<R: std::io::Read>(r: &FlacReader<R>) -> MetaOb {
    MetaOb { info: info_ob(&r.streaminfo()), vendor: r.vendor().map(|s| s.to_string()), tags: r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
}
pub fn meta_expect(b: &Built) -> MetaOb { MetaOb { info: info_ref(&b.info), vendor: b.vendor.clone(), tags: b.tags.clone() } }
pub fn opts(metadata_only: bool, read_vorbis_comment: bool) -> FlacReaderOptions { FlacReaderOptions { metadata_only, read_vorbis_comment } }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Full { pub meta: Result<MetaOb, E>, pub obs: Vec<Ob> }
/// Opens a stream and drains it by blocks.
pub fn full<R: std::io::Read>(r: R) -> Full { full_of(FlacReader::new(r)) }
pub fn full_of<R: std::io::Read>(r: claxon::Result<FlacReader<R>>) -> Full {
    match r {
        Err(e) => Full { meta: Err(ec(&e)), obs: vec![] },
        Ok(mut r) => { let m = meta_ob(&r); let o = drain(&mut r.blocks(), 1000); Full { meta: Ok(m), obs: o } }
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Smp { pub v: Vec<i32>, pub end: Result<(), E> }
/// Drains an iterator of samples.
pub fn samples(it: &mut dyn Iterator<Item = claxon::Result<i32>>, max: usize) -> Smp {
    let mut v = vec![];
    loop {
        match it.next() { Some(Ok(s)) => { v.push(s); if v.len() > max { return Smp { v, end: Ok(()) } } } Some(Err(e)) => return Smp { v, end: Err(ec(&e)) }, None => return Smp { v, end: Ok(()) } }
    }
}
pub fn h<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    struct H(u64);
    impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { self.0 = hash_bytes(self.0, b) }
        fn write_u8(&mut self, x: u8) { self.0 = mix(self.0, x as u64) } fn write_u32(&mut self, x: u32) { self.0 = mix(self.0, x as u64) } fn write_u64(&mut self, x: u64) { self.0 = mix(self.0, x) } fn write_usize(&mut self, x: usize) { self.0 = mix(self.0, x as u64) } }
    let mut s = H(0x1234);
    t.hash(&mut s);
    s.0
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
