//! C18: the bit reader returns exactly the bits of the stream.
use crate::engine::*;
use crate::fam;
use crate::src::*;
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use std::io;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Bit, Unary, U8(u32), Gt(u32), U16(u32), U32(u32) }
fn all_ops() -> Vec<Op> {
    let mut v = vec![Op::Bit, Op::Unary];
    v.extend((0..=8).map(Op::U8));
    v.extend((9..=16).map(Op::Gt));
    v.extend((0..=16).map(Op::U16));
    v.extend((0..=32).map(Op::U32));
    v
}
fn few_ops() -> Vec<Op> { vec![Op::Bit, Op::Unary, Op::U8(0), Op::U8(1), Op::U8(3), Op::U8(5), Op::U8(7), Op::U8(8), Op::Gt(9), Op::Gt(10), Op::Gt(12), Op::Gt(15), Op::Gt(16), Op::U16(6), Op::U16(11), Op::U16(16), Op::U32(4), Op::U32(13), Op::U32(17), Op::U32(25), Op::U32(31), Op::U32(32)] }
thread_local! { static OPS: Vec<Op> = all_ops(); static FEW: Vec<Op> = few_ops(); }
fn op(ch: &mut Ch) -> Op { OPS.with(|o| ch.pick(o)) }

fn apply<R: ReadBytes>(b: &mut Bitstream<R>, o: Op) -> io::Result<u32> {
    match o {
        Op::Bit => b.read_bit().map(|x| x as u32),
        Op::Unary => b.read_unary(),
        Op::U8(n) => b.read_leq_u8(n).map(|x| x as u32),
        Op::Gt(n) => b.read_gt_u8_leq_u16(n),
        Op::U16(n) => b.read_leq_u16(n).map(|x| x as u32),
        Op::U32(n) => b.read_leq_u32(n),
    }
}
/// The specification: next unread bits, most significant first.
fn model(b: &[u8], p: usize, o: Op) -> Option<(u32, usize)> {
    let bit = |i: usize| b[i / 8] >> (7 - i % 8) & 1;
    let n = match o { Op::Bit => 1, Op::Unary => { let mut i = p; loop { if i >= b.len() * 8 { return None; } if bit(i) == 1 { return Some(((i - p) as u32, i + 1)); } i += 1; } }
        Op::U8(n) | Op::Gt(n) | Op::U16(n) | Op::U32(n) => n as usize };
    if p + n > b.len() * 8 { return None; }
    let mut v = 0u32;
    for i in p..p + n { v = v << 1 | bit(i) as u32; }
    Some((v, p + n))
}
/// Runs the ops, then bit by bit checks the position by reading on; true if the end was hit.
fn check<R: ReadBytes>(data: &[u8], rd: R, ops: &[Op], ch: &mut Ch, tail: usize) -> R2 {
    let mut b = Bitstream::new(rd);
    let mut p = 0;
    for (i, &o) in ops.iter().enumerate() {
        let h0 = mix((p % 8) as u64 | (if p / 8 < data.len() { data[p / 8] << (p % 8) } else { 0 } as u64) << 8, match o { Op::Bit => 1, Op::Unary => 2, Op::U8(n) => 16 + n as u64, Op::Gt(n) => 64 + n as u64, Op::U16(n) => 128 + n as u64, Op::U32(n) => 192 + n as u64 });
        let got = nopanic(data, || apply(&mut b, o))?;
        ch.steps(1);
        match (model(data, p, o), got) {
            (Some((v, q)), Ok(g)) => { if v != g { return violb(format!("{:?} at bit {} (op {} of {:?}): got {:#x}, the stream holds {:#x}", o, p, i, ops, g, v), data); } p = q; ch.state(mix(h0, v as u64 & 0xff)); }
            (None, Err(e)) => { if e.kind() != io::ErrorKind::UnexpectedEof { return violb(format!("{:?} past the end: error kind {:?}", o, e.kind()), data); } ch.state(mix(h0, 0xeee)); return Ok(true); }
            (Some((v, _)), Err(e)) => return violb(format!("{:?} at bit {} of {:?}: failed ({}) though the bits {:#x} are there", o, p, ops, e, v), data),
            (None, Ok(g)) => return violb(format!("{:?} at bit {} of {:?}: invented {:#x} beyond the end", o, p, ops, g), data),
        }
    }
    // Verify the position: the next bits must be the next unread ones.
    for _ in 0..tail {
        match (model(data, p, Op::Bit), nopanic(data, || b.read_bit())?) {
            (Some((v, q)), Ok(g)) => { if (v == 1) != g { return violb(format!("after {:?}: next bit (bit {}) read as {}, is {}", ops, p, g, v), data); } p = q; }
            (None, Err(_)) => return Ok(true),
            (x, y) => return violb(format!("after {:?}: bit {}: expected {:?}, got {:?}", ops, p, x, y), data),
        }
    }
    Ok(false)
}
type R2 = Result<bool, Viol>;

const PATS: [[u8; 8]; 8] = [
    [0xA5, 0xE1, 0xD2, 0x55, 0x73, 0x01, 0x80, 0xFF], [0x00, 0x01, 0x80, 0x00, 0x10, 0x00, 0x08, 0x01], [0xFF; 8], [0x80, 0x00, 0x00, 0x00, 0x01, 0x00, 0x00, 0x02],
    [0x01, 0xFE, 0x01, 0xFE, 0x7F, 0x80, 0x3C, 0xC3], [0x0F, 0xF0, 0x55, 0xAA, 0x33, 0xCC, 0x99, 0x66], [0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01, 0x80], [0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0]];
fn pat(k: usize, n: usize) -> Vec<u8> { (0..n).map(|i| PATS[k][i % 8]).collect() }

/// From every reader state, every operation, every content of the following two bytes.
fn graph(ch: &mut Ch) -> R {
    // reach (bits left = 8-k, remaining bits of byte 0) by one op of k bits, in each way there is
    let b0 = ch.choose(256) as u8;
    let k = ch.choose(9);
    let way = ch.choose(3);
    let pre: Vec<Op> = match way { 0 => (0..k).map(|_| Op::Bit).collect(), 1 => vec![Op::U8(k as u32)], _ => { // through a 9..16 bit read ending in the second byte
        vec![Op::Gt(8 + k.max(1) as u32)] } };
    let o = op(ch);
    let tails: &[[u8; 6]] = &[[0, 0, 0, 0, 0, 0x80], [0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], [0xa5, 0x5a, 0x0f, 0x01, 0x80, 0x3c]];
    let step = ch.t(17usize, 1);
    let mut ops = pre;
    ops.push(o);
    for x in (0..256).step_by(step) {
        for t in tails {
            let mut d = if way == 2 { vec![0x5a, b0] } else { vec![b0] };
            d.push(x as u8);
            d.extend(t);
            check(&d, SliceRb::new(&d), &ops, ch, 12)?;
        }
    }
    ch.execs(256 / step as u64 * 3, 256 / step as u64 * 3);
    ch.sample(|| format!("byte {:#04x}, {:?}", b0, ops));
    Ok(())
}
/// All sequences of ops.
fn seqs(ch: &mut Ch) -> R {
    let depth = ch.t(2, 3);
    let k = ch.choose(PATS.len());
    let mut ops: Vec<Op> = (0..depth).map(|_| op(ch)).collect();
    let d = pat(k, 24);
    // the last op is looped here rather than chosen
    OPS.with(|all| -> R {
        for &o in all.iter() { ops.push(o); check(&d, SliceRb::new(&d), &ops, ch, 9)?; ops.pop(); }
        Ok(())
    })?;
    ch.execs(69, 69);
    ch.sample(|| format!("pattern {} {:?} + every op", k, ops));
    Ok(())
}
fn seqs_few(ch: &mut Ch) -> R {
    let depth = ch.t(3, 4);
    let k = ch.choose(PATS.len());
    FEW.with(|few| {
        let mut ops: Vec<Op> = (0..depth).map(|_| ch.pick(few)).collect();
        let d = pat(k, 40);
        for &o in few.iter() { ops.push(o); check(&d, SliceRb::new(&d), &ops, ch, 9)?; ops.pop(); }
        ch.execs(few.len() as u64, few.len() as u64);
        ch.sample(|| format!("pattern {} {:?} + every op", k, ops));
        Ok(())
    })
}
/// Every op pair over all contents of the first two bytes.
fn pairs(ch: &mut Ch) -> R {
    let (a, b) = (op(ch), op(ch));
    let b0 = if ch.quick() { ch.choose(32) * 8 + (ch.parity() as usize * 5) % 8 } else { ch.choose(256) } as u8;
    let mut d = [b0, 0, 0x96, 0x01, 0xfe, 0x80, 0x2d, 0xff, 0x11, 0x80];
    for x in (0..256usize).step_by(ch.t(3, 1)) {
        d[1] = x as u8;
        check(&d, SliceRb::new(&d), &[a, b], ch, 8)?;
    }
    ch.execs(256, 256);
    ch.sample(|| format!("{:?} {:?} byte0 {:#x}", a, b, b0));
    Ok(())
}
/// Reads at and across the end of sources of every small length.
fn eof(ch: &mut Ch) -> R {
    let len = ch.range(0, 7);
    let k = ch.choose(PATS.len());
    let d = pat(k, len);
    let depth = ch.range(1, ch.t(2, 3));
    let ops: Vec<Op> = (0..depth).map(|_| op(ch)).collect();
    let hit = check(&d, BufferedReader::new(&d[..]), &ops, ch, 64)?;
    check(&d, io::Cursor::new(&d), &ops, ch, 64)?;
    ch.execs(2, hit as u64 * 2);
    ch.sample(|| format!("{} bytes, {:?}", len, ops));
    Ok(())
}
/// Long unary codes at every alignment, across the internal buffer.
fn unary(ch: &mut Ch) -> R {
    let off = ch.choose(8);
    let q = match ch.choose(4) { 0 => ch.range(0, ch.t(80, 700)), 1 => 8 * (cap() - 1) + ch.range(0, 24) - off, 2 => 8 * cap() + ch.range(0, 24) - off, _ => 16 * cap() + ch.range(0, 16) - off };
    let mut w = crate::enc::BitW::new();
    w.put(0x7f >> (7 - off), off as u32);
    w.unary(q as u64);
    let end = w.bitlen();
    w.put(0b1_0110_0101, 9);
    w.unary(3);
    let d = w.v.clone();
    let pre = if off > 0 { vec![Op::U8(off as u32)] } else { vec![] };
    for c in [Chunk::Full, Chunk::Uniform(1), Chunk::Uniform(7), Chunk::Cuts(vec![end / 8]), Chunk::Cuts(vec![end / 8 + 1])] {
        let mut ops = pre.clone();
        ops.extend([Op::Unary, Op::U8(4), Op::U8(5), Op::Unary]);
        check(&d, BufferedReader::new(Src::new(&d).chunk(c)), &ops, ch, 8)?;
        ch.exec(true);
    }
    let mut bytewise = pre;
    bytewise.extend(std::iter::repeat(Op::Bit).take(q.min(40)));
    bytewise.push(Op::Unary);
    check(&d, io::Cursor::new(&d), &bytewise, ch, 8)?;
    ch.exec(true);
    ch.sample(|| format!("{} zeros at bit {}", q, off));
    Ok(())
}
/// The same op sequence over every kind of reader.
fn readers(ch: &mut Ch) -> R {
    let start = ch.pick(&[0usize, (cap()-8), (cap()-7), (cap()-6), (cap()-5), (cap()-4), (cap()-3), (cap()-2), (cap()-1), cap()]);
    let d: Vec<u8> = (0..cap() + 52).map(|i| (i * 37 + i / 7) as u8).collect();
    let (a, b) = FEW.with(|f| (ch.pick(f), ch.pick(f)));
    let c = op(ch);
    let mut ops: Vec<Op> = vec![];
    let kind = ch.choose(5);
    let pre = start;
    let d2 = &d[..];
    macro_rules! go { ($r:expr) => {{ let mut r = $r; r.skip(pre as u32).map_err(|e| Viol { msg: format!("skip failed: {}", e), bytes: vec![], fingerprint: String::new() })?; ops.extend([a, b, c]); check(&d2[pre..], r, &ops, ch, 20)?; }} }
    match kind {
        0 => go!(BufferedReader::new(Src::new(d2))),
        1 => go!(BufferedReader::new(Src::new(d2).chunk(Chunk::Uniform(3)).scribble(0xff))),
        2 => go!(io::Cursor::new(d2)),
        3 => { let mut x = BufferedReader::new(Src::new(d2).chunk(Chunk::Uniform((cap()-1)))); go!(&mut x) }
        _ => { let mut x = io::Cursor::new(d2.to_vec()); go!(&mut x) }
    }
    ch.exec(true);
    ch.sample(|| format!("reader {} after {} bytes: {:?}", kind, start, ops));
    Ok(())
}
/// Sign extension helper used on everything the bit reader returns.
fn sign(ch: &mut Ch) -> R {
    let bits = ch.range(1, 32) as u32;
    let n = if bits <= 16 { 1u64 << bits } else { 1 << 16 };
    for i in 0..n {
        let v = if bits <= 16 { i as u32 } else { let top = (i as u32) << (bits - 16); top | [0, 1, (1 << (bits - 16)) - 1][(i % 3) as usize] };
        let want = (v as i64 - if v >> (bits - 1) & 1 == 1 { 1i64 << bits } else { 0 }) as i32;
        let got = nopanic(&[], || claxon::subframe::extend_sign_u32(v, bits))?;
        if got != want { return viol(format!("extend_sign_u32({:#x}, {}) = {}, expected {}", v, bits, got, want)); }
        ch.steps(1);
    }
    ch.state(bits as u64);
    ch.execs(n, n);
    Ok(())
}

pub fn c18() -> Prop {
    Prop { id: "C18", level: "model_checking",
        rule: "a case is a byte string and a sequence of bit-reader calls, replayed on the real Bitstream and on a bit-index model; every result and the position after it are compared. Non-trivial: at least one call; distinct: (bit offset, unread bits of the current byte, call, low result bits)",
        assumptions: &["byte contents beyond the enumerated ones follow patterns", "counts of zeros up to 2^23+7 (thorough 2^26+7; longer ones: C02)"],
        families: vec![
            fam!("graph", "every state (bit offset x remaining bits of the current byte, reached in 3 ways) x 69 calls x next byte (all values thorough, every 17th quick) x 3 tails", graph),
            fam!("seqs", "all call sequences of length 3 (quick) / 4 (thorough) over all 69 calls x 8 byte patterns", seqs),
            fam!("seqs-few", "all call sequences of length 4 (quick) / 5 (thorough) over 22 representative calls x 8 byte patterns", seqs_few),
            fam!("pairs", "all 69x69 call pairs x first byte x second byte (sub-sampled lattice in quick, all 65536 in thorough)", pairs),
            fam!("eof", "sources of 0..7 bytes x 8 patterns x all call sequences up to length 2 (quick) / 3 (thorough), then bit by bit past the end", eof),
            fam!("unary", "unary codes of every length up to 80/700 and around 1x and 2x the buffer size x 8 alignments x 5 chunkings", unary),
            fam!("readers", "10 positions around the buffer boundary x 22x22x69 calls x 5 readers", readers),
            fam!("sign", "sign extension: all values up to 16 bits, all top halves above", sign),
            fam!("long-unary", "runs of up to 2^23 (2^26) zeros x 4 alignments x 5 readers, terminated or cut", crate::p_hist::long_unary),
            fam!("far", "2^32 bits at 2 (4) offsets by 2 (3) kinds of reads, then 300 reads of all kinds", crate::p_far::bits),
        ] }
}
