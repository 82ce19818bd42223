//! C19: the byte readers behave like one exact byte queue.
use crate::engine::*;
use crate::fam;
use crate::p_more;
use crate::src::*;
use claxon::input::{BufferedReader, ReadBytes};
use std::io::{self, Cursor};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { U8, U8e, Be16, Be16e, Be24, Be32, Le32, Into(usize), Skip(u32) }
#[derive(Debug, PartialEq, Clone)]
pub enum Out { Num(u64), None, Bytes(Vec<u8>), Unit }

pub fn apply<R: ReadBytes>(r: &mut R, o: Op) -> io::Result<Out> {
    Ok(match o {
        Op::U8 => Out::Num(r.read_u8()? as u64),
        Op::U8e => r.read_u8_or_eof()?.map_or(Out::None, |x| Out::Num(x as u64)),
        Op::Be16 => Out::Num(r.read_be_u16()? as u64),
        Op::Be16e => r.read_be_u16_or_eof()?.map_or(Out::None, |x| Out::Num(x as u64)),
        Op::Be24 => Out::Num(r.read_be_u24()? as u64),
        Op::Be32 => Out::Num(r.read_be_u32()? as u64),
        Op::Le32 => Out::Num(r.read_le_u32()? as u64),
        Op::Into(n) => { let mut b = vec![0xEE; n]; r.read_into(&mut b)?; Out::Bytes(b) }
        Op::Skip(n) => { r.skip(n)?; Out::Unit }
    })
}
pub fn width(o: Op) -> usize { match o { Op::U8 | Op::U8e => 1, Op::Be16 | Op::Be16e => 2, Op::Be24 => 3, Op::Be32 | Op::Le32 => 4, Op::Into(n) => n, Op::Skip(n) => n as usize } }
/// What `o` yields if it succeeds from position p.
pub fn value(d: &[u8], p: usize, o: Op) -> Option<Out> {
    let n = width(o);
    if p > d.len() || n > d.len() - p { return None; }
    let s = &d[p..p + n];
    let be = s.iter().take(8).fold(0u64, |a, &x| a << 8 | x as u64);
    Some(match o { Op::Le32 => Out::Num(s.iter().rev().fold(0u64, |a, &x| a << 8 | x as u64)), Op::Into(_) => Out::Bytes(s.to_vec()), Op::Skip(_) => Out::Unit, _ => Out::Num(be) })
}
fn small(o: &Out) -> String { match o { Out::Bytes(b) if b.len() > 16 => format!("{} bytes {:?}..", b.len(), &b[..8]), x => format!("{:?}", x) } }

/// Replays ops against the queue model. After a failed read the position is only known to lie
/// between where it was and the end, so the model then tracks the set of possible positions.
pub fn check<R: ReadBytes>(d: &[u8], start: usize, r: &mut R, ops: &[Op], ch: &mut Ch) -> Result<bool, Viol> {
    let mut pos: Vec<usize> = vec![start];
    let mut failed = false;
    for (i, &o) in ops.iter().enumerate() {
        ch.steps(1);
        ch.state(mix(mix(d.len() as u64, pos[0] as u64 | (pos.len() as u64) << 32), match o { Op::U8 => 1, Op::U8e => 2, Op::Be16 => 3, Op::Be16e => 4, Op::Be24 => 5, Op::Be32 => 6, Op::Le32 => 7, Op::Into(n) => 1000 + n as u64, Op::Skip(n) => 1 << 40 | n as u64 }));
        let g = nopanic(d, || apply(r, o))?;
        let ctx = || format!("call {} of {:?} on {} bytes from {}", i, ops, d.len(), start);
        match g {
            Ok(Out::None) => {
                if !pos.contains(&d.len()) { return violb(format!("{}: reports the end with {} bytes left", ctx(), d.len() - pos[0]), d); }
                pos = vec![d.len()];
            }
            Ok(v) => {
                let next: Vec<usize> = pos.iter().filter(|&&p| value(d, p, o).as_ref() == Some(&v)).map(|&p| p + width(o)).collect();
                if next.is_empty() { return violb(format!("{}: returned {}, expected {}", ctx(), small(&v), value(d, pos[0], o).map_or("an end-of-input error".into(), |x| small(&x))), d); }
                pos = next;
            }
            Err(e) => {
                if e.kind() != io::ErrorKind::UnexpectedEof { return violb(format!("{}: error kind {:?}", ctx(), e.kind()), d); }
                // Must not fail if every possible position can satisfy it; end-tolerant reads must not fail at the very end.
                let bad = pos.iter().all(|&p| value(d, p, o).is_some() || matches!(o, Op::U8e | Op::Be16e) && p == d.len());
                if bad { return violb(format!("{}: fails though {} bytes are left", ctx(), d.len() - pos[0]), d); }
                failed = true;
                let lo = *pos.iter().filter(|&&p| value(d, p, o).is_none()).min().unwrap();
                pos = (lo..=d.len().max(lo)).collect();
            }
        }
    }
    Ok(failed)
}
const OPS: [Op; 17] = [Op::U8, Op::U8e, Op::Be16, Op::Be16e, Op::Be24, Op::Be32, Op::Le32, Op::Into(0), Op::Into(1), Op::Into(2), Op::Into(3), Op::Into(5), Op::Skip(0), Op::Skip(1), Op::Skip(2), Op::Skip(3), Op::Skip(5)];

fn data(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + 0x81 + (i >> 8) * 3) as u8).collect() }

fn with_reader(d: &[u8], kind: usize, chunk: Chunk, ops: &[Op], ch: &mut Ch) -> Result<bool, Viol> {
    match kind {
        0 => check(d, 0, &mut BufferedReader::new(Src::new(d).chunk(chunk).scribble(0xD7)), ops, ch),
        1 => check(d, 0, &mut Cursor::new(d), ops, ch),
        2 => { let mut r = BufferedReader::new(Src::new(d).chunk(chunk)); check(d, 0, &mut &mut r, ops, ch) }
        3 => { let mut r = Cursor::new(d.to_vec()); let mut q = &mut r; check(d, 0, &mut &mut q, ops, ch) }
        _ => { let mut r = BufferedReader::new(d); let a = check(d, 0, &mut r, ops, ch)?; let _ = r.into_inner(); Ok(a) }
    }
}
fn seqs(ch: &mut Ch) -> R {
    let n = ch.range(0, 9);
    let d = data(n);
    let kind = ch.choose(5);
    let chunk = if kind == 0 || kind == 2 { ch.pick(&[usize::MAX, 1, 2, 3]) } else { usize::MAX };
    let depth = ch.t(3, 4);
    let mut ops: Vec<Op> = (0..depth).map(|_| ch.pick(&OPS)).collect();
    let mut nf = 0;
    for &o in &OPS { ops.push(o); nf += with_reader(&d, kind, Chunk::Uniform(chunk), &ops, ch)? as u64; ops.pop(); }
    ch.execs(17, nf.max(1));
    ch.sample(|| format!("{} bytes, reader {}, chunks of {}, {:?} + every call", n, kind, chunk, ops));
    Ok(())
}
/// Every way of cutting a short source into read results.
fn cuts(ch: &mut Ch) -> R {
    let n = ch.range(1, ch.t(7, 9));
    let d = data(n);
    let mut c = vec![];
    for i in 1..n { if ch.flag() { c.push(i); } }
    let ops: Vec<Op> = (0..ch.t(2, 3)).map(|_| ch.pick(&OPS)).collect();
    let r = with_reader(&d, 0, Chunk::Cuts(c.clone()), &ops, ch)?;
    ch.exec(!c.is_empty() || r);
    ch.sample(|| format!("{} bytes cut at {:?}, {:?}", n, c, ops));
    Ok(())
}
fn big_ops() -> [Op; 21] { let c = cap(); [Op::U8, Op::U8e, Op::Be16, Op::Be16e, Op::Be24, Op::Be32, Op::Le32, Op::Into(1), Op::Into(7), Op::Into(c - 1), Op::Into(c), Op::Into(c + 1), Op::Into(2 * c + 4), Op::Skip(1), Op::Skip(7), Op::Skip(c as u32 - 1), Op::Skip(c as u32), Op::Skip(c as u32 + 1), Op::Skip(2 * c as u32 + 4), Op::Skip(0x7fff_ffff), Op::Skip(0xffff_ffff)] }
/// Around the internal buffer's boundary.
fn boundary(ch: &mut Ch) -> R {
    let n = ch.pick(&[(cap()-1), cap(), (cap()+1), 2*cap(), (2*cap()+1), 3 * cap() + 56]);
    let pre = { let c = cap() as u32; ch.pick(&[0, 1, c - 8, c - 4, c - 3, c - 2, c - 1, c, c + 1, 2 * c - 3, 2 * c - 1, 2 * c]) };
    let chunk = ch.pick(&[usize::MAX, 1, 1000, (cap()-1), (cap()-2), 3]);
    let prekind = ch.choose(3);
    let d = data(n);
    let mut ops = match prekind { 0 => vec![Op::Skip(pre)], 1 => vec![Op::Into(pre as usize)], _ => (0..pre).map(|_| Op::U8).collect() };
    if prekind == 2 && (pre > cap() as u32 + 52 || chunk == 1 || chunk == cap() - 2) { return Ok(()); }
    if ch.quick() && chunk == 1 && n > 2 * cap() { return Ok(()); }
    for _ in 0..2 { ops.push(ch.pick(&big_ops())); }
    let kind = if chunk == usize::MAX { ch.choose(5) } else { ch.pick(&[0usize, 2]) };
    let r = with_reader(&d, kind, Chunk::Uniform(chunk), &ops, ch)?;
    ch.exec(pre > 0 || r);
    ch.sample(|| format!("{} bytes, reader {}, chunks of {}, last calls {:?}", n, kind, chunk, &ops[ops.len() - 2..]));
    Ok(())
}
/// Cursors whose position is anywhere, also beyond the end.
fn cursor(ch: &mut Ch) -> R {
    let n = ch.range(0, 6);
    let d = data(n);
    let start = ch.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 100, u32::MAX as u64, 1 << 32, u64::MAX - 2, u64::MAX - 1, u64::MAX]);
    let ops: Vec<Op> = (0..3).map(|_| ch.pick(&OPS)).collect();
    let huge = ch.choose(3);
    let mut c = Cursor::new(&d[..]);
    c.set_position(start);
    if start <= n as u64 {
        let mut ops = ops.clone();
        if huge == 1 { ops.push(Op::Skip(u32::MAX)) } else if huge == 2 { ops.insert(0, Op::Skip(u32::MAX)) }
        check(&d, start as usize, &mut c, &ops, ch)?;
    } else {
        for &o in &ops {
            let r = nopanic(&d, || apply(&mut c, o))?;
            match r {
                Ok(Out::None) if matches!(o, Op::U8e | Op::Be16e) => {}
                Ok(x) if width(o) == 0 && matches!(x, Out::Unit | Out::Bytes(_)) => {}
                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {}
                r => return violb(format!("{:?} on a cursor at {} of {} bytes gave {:?}", o, start, n, r), &d),
            }
        }
    }
    ch.exec(start > 0);
    ch.sample(|| format!("{} bytes, cursor at {}, {:?}", n, start, ops));
    Ok(())
}
/// The end is reported again and again, and bulk calls of zero bytes are fine there.
fn end(ch: &mut Ch) -> R {
    let n = ch.range(0, 5);
    let d = data(n);
    let kind = ch.choose(5);
    let mut ops = match ch.choose(3) { 0 => vec![Op::U8e; n], 1 => vec![Op::Skip(n as u32)], _ => vec![Op::Into(n)] };
    for _ in 0..4 { ops.push(ch.pick(&[Op::U8, Op::U8e, Op::Be16e, Op::Be16, Op::Into(0), Op::Skip(0), Op::Into(1), Op::Skip(1)])); }
    with_reader(&d, kind, Chunk::Full, &ops, ch)?;
    ch.exec(true);
    Ok(())
}
pub fn c19() -> Prop {
    Prop { id: "C19", level: "model_checking",
        rule: "a case is a source (length, chunking), a reader kind and a sequence of ReadBytes calls, replayed on the real reader and on a byte-queue model (a position set after a failed read). Non-trivial: crosses a refill, a cut or the end; distinct: (source length, model positions, call)",
        assumptions: &["after a failed multi-byte read the position may be anywhere between the old one and the end (both readers differ there and nothing documents it)"],
        families: vec![
            fam!("seqs", "sources of 0..9 bytes x 5 readers x chunks {all,1,2,3} x all call sequences of length 4 (quick) / 5 (thorough) over 17 calls", seqs),
            fam!("cuts", "all cut sets of sources up to 7/9 bytes x all call sequences of length 2/3", cuts),
            fam!("boundary", "6 source lengths x 12 positions around multiples of the internal buffer's size x 6 chunkings x 3 ways to get there x 21x21 calls x readers", boundary),
            fam!("cursor", "cursor of 0..6 bytes at 15 positions (also beyond the end, up to 2^64-1) x 17^3 calls x huge skips", cursor),
            fam!("end", "4 calls at the end over 8 calls x 5 readers x 3 ways to get there", end),
            fam!("skips", "skips by all numbers up to 40 (300) and interesting ones up to 2^32-1 x 10 sources x 5 positions x 9 readers", p_more::skips),
            fam!("bulks", "bulk reads of all lengths up to 40 (300) and interesting ones up to 140000 x 11 sources x 5 positions x 9 readers", p_more::bulks),
            fam!("stale", "all sequences of 4 (5) of 10 calls on up to 17 bytes in three pieces x 4 contents of the unused buffer", p_more::stale),
            fam!("values", "all values of 8, 16 and 24 bits through every call that reads them, 4 readers each, in long runs", p_more::values),
            fam!("values32", "32-bit values: every pair of bytes with the others out of 8 (thorough: all 2^32), both byte orders, 3 readers each", p_more::values32),
            fam!("far-bytes", "buffered readers after up to 2^33 skipped bytes: 17 calls in 17 orders over the 2^31 and 2^32 marks", crate::p_far::buffered),
            fam!("far-kinds", "2^32 bytes and more by one kind of call", crate::p_far::one_kind),
            fam!("far-cursor", "cursors over more than 4 GiB: every position around 2^31, 2^32 and the end x 21 x 17 calls", crate::p_far::cursor),
            fam!("bulk-reads", "bulk reads of 13 lengths after 6 skips, delivered up to three places next to the ends and the buffer's", crate::p_fill::bulk_reads),
            fam!("far-references", "skips of 9 sizes up to 2^26 through 1 to 3 references on 3 readers", crate::p_real::far_references),
            fam!("boundary-bytes", "7 ways to 7 places around the end of the internal buffer x 10 reads x all values of the byte there x 3 neighbours", crate::p_junk::boundary_bytes)
        ] }
}
