//! C02, C03, C09, C10, C11: arbitrary, corrupted and boundary frames.
use crate::common::*;
use crate::enc::*;
use crate::p_twise;
use crate::engine::*;
use crate::fam;
use crate::p_pool;
use crate::p_decode::{lattice, BPS};
use crate::refdec::{self, Rej};
use crate::src::*;
use claxon::frame::{Block, FrameReader};
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlockReader};
use claxon::{Error, FlacReader};
use std::io::{self, Cursor, Read};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Exact { Yes, No }

/// One read of a frame reader on `b` against the reference. Returns true if it was delivered.
pub fn judge(ch: &mut Ch, b: &[u8], exact: Exact) -> Result<bool, Viol> {
    let want = refdec::frame(b);
    let buffered = ch.parity() % 4 == 0;
    let got = nopanic(b, || if buffered { FrameReader::new(BufferedReader::new(Src::new(b).chunk(Chunk::Uniform(37)).scribble(0xff))).read_next_or_eof(vec![]) } else { FrameReader::new(SliceRb::new(b)).read_next_or_eof(vec![]) })?;
    ch.exec(true);
    ch.state(hash_bytes(b.len() as u64, &b[..b.len().min(600)]));
    verdict(b, got, &want, exact)
}
pub fn verdict(b: &[u8], got: claxon::Result<Option<Block>>, want: &Result<refdec::Frame, refdec::Rj>, exact: Exact) -> Result<bool, Viol> {
    match (got, want) {
        (Ok(Some(g)), Ok(w)) => {
            let t = if w.variable { w.number } else { w.number * w.bs as u64 };
            if w.strict { if let Err(m) = same(&g, &w.blk(t)) { return violb(m, b); } }
            else if (g.time(), g.duration(), g.channels()) != (t, w.bs as u32, w.ch as u32) { return violb(format!("block (time {}, duration {}, {} channels), expected ({}, {}, {})", g.time(), g.duration(), g.channels(), t, w.bs, w.ch), b); }
            Ok(true)
        }
        (Ok(Some(g)), Err(w)) => violb(format!("delivered a block of {} x {} samples, but the frame must be rejected: {:?}", g.channels(), g.duration(), w), b),
        (Ok(None), w) => violb(format!("reported the end of the stream, expected {:?}", w.as_ref().map(|f| f.bs)), b),
        (Err(e), Ok(w)) => if w.strict { violb(format!("rejected a well-formed frame: {:?}", e), b) } else { Ok(false) },
        (Err(e), Err(w)) => {
            let (a, z) = (ec(&e), rej(w.0));
            if exact == Exact::Yes && a != z { return violb(format!("failed with {:?}, expected {:?}", e, w), b); }
            Ok(false)
        }
    }
}
/// A frame around a header: constant subframes as the header asks for, checksums right (or `crc`).
pub fn around(hd: &[u8], crc: Option<u8>) -> Vec<u8> {
    let mut v = hd.to_vec();
    v.push(crc.unwrap_or_else(|| crc8(hd)));
    let (b2, b3) = (hd.get(2).cloned().unwrap_or(0), hd.get(3).cloned().unwrap_or(0));
    let _ = b2;
    let cc = b3 >> 4;
    let n = if cc < 8 { cc as usize + 1 } else { 2 };
    let bps = match b3 >> 1 & 7 { 1 => 8, 2 => 12, 4 => 16, 5 => 20, 6 => 24, _ => 16 };
    let mut w = BitW::new();
    for c in 0..n {
        let extra = match cc { 8 | 10 => (c == 1) as u32, 9 => (c == 0) as u32, _ => 0 };
        w.put(0, 8);
        w.signed(if c == 1 { -7 } else { 5 + 3 * c as i64 }, bps + extra);
    }
    v.extend(&w.v);
    let c = crc16(&v);
    v.extend(c.to_be_bytes());
    v
}

// ------------------------------------------------------------------ C10

pub fn hd_first2(ch: &mut Ch) -> R {
    let a = ch.choose(256) as u8;
    let form = ch.choose(3);
    for b in 0..=255u8 {
        let hd = [&[a, b][..], [&[0xc9u8, 0x18, 0x05][..], &[0x69, 0x08, 0x00, 0x0f], &[0x79, 0x88, 0xc4, 0x80, 0x00, 0x10]][form]].concat();
        // A single wrong field: the class is Format. An empty prefix match (0xff alone) cannot end the stream.
        judge(ch, &around(&hd, None), Exact::Yes)?;
    }
    ch.sample(|| format!("first byte {:#x}, every second byte, form {}", a, form));
    Ok(())
}
pub fn hd_fields(ch: &mut Ch) -> R {
    let b2 = ch.choose(256) as u8;
    let variable = ch.flag();
    let num: &[u8] = ch.pick(&[&[0u8][..], &[0x7f], &[0xc2, 0x80], &[0xfe, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86]]);
    for b3 in 0..=255u8 {
        let mut hd = vec![0xff, 0xf8 | variable as u8, b2, b3];
        hd.extend(num);
        match b2 >> 4 { 6 => hd.push(0x11), 7 => hd.extend([0x01, 0x02]), _ => {} }
        match b2 & 15 { 12 => hd.push(0x00), 13 | 14 => hd.extend([0xff, 0xff]), _ => {} }
        let bad = (b2 >> 4 == 0) as u32 + (b2 & 15 == 15) as u32 + (b3 >> 4 > 10) as u32 + matches!(b3 >> 1 & 7, 3 | 7) as u32 + (b3 & 1) as u32 + (b3 >> 1 & 7 == 0) as u32 + (!variable && num.len() == 7) as u32;
        judge(ch, &around(&hd, None), if bad <= 1 { Exact::Yes } else { Exact::No })?;
    }
    ch.sample(|| format!("third byte {:#x}, every fourth byte, number {:x?} variable {}", b2, num, variable));
    Ok(())
}
/// A header with size and rate coded at the end.
pub fn hd_ext(ch: &mut Ch) -> R {
    let which = ch.choose(5);
    let hi = ch.choose(256) as u8;
    let variable = ch.flag();
    let step = ch.t(if which == 1 { 5 } else { 3 }, 1);
    for lo in (0..256usize).step_by(step).chain([255]) {
        let lo = lo as u8;
        let (b2, ext): (u8, Vec<u8>) = match which { 0 => (0x6c, vec![hi, lo]), 1 => (0x79, vec![hi, lo]), 2 => (0x6d, vec![0x0f, hi, lo]), 3 => (0x6e, vec![0x0f, hi, lo]), _ => (0x7e, vec![0x00, hi, lo, hi ^ 0xff]) };
        if which == 1 && ch.quick() && hi > 24 && hi < 250 && lo % 15 != 0 { continue; }
        let mut hd = vec![0xff, 0xf8 | variable as u8, b2, 0x08, 0x03];
        hd.extend(ext);
        judge(ch, &around(&hd, None), Exact::Yes)?;
    }
    ch.sample(|| format!("form {} with byte {:#x} and every next byte", which, hi));
    Ok(())
}
/// All shapes of coded numbers: every first byte, continuation bytes over boundary values, at every length.
pub fn hd_varint(ch: &mut Ch) -> R {
    let first = ch.choose(256) as u8;
    let variable = ch.flag();
    let n = match first { 0..=0x7f => 0, 0x80..=0xbf => 1, 0xc0..=0xdf => 1, 0xe0..=0xef => 2, 0xf0..=0xf7 => 3, 0xf8..=0xfb => 4, 0xfc | 0xfd => 5, 0xfe => 6, _ => 7 };
    let mut num = vec![first];
    for i in 0..n { let full = n <= 4 || i < 3; num.push(if full { ch.pick(&[0x80u8, 0xbf, 0x00, 0x7f, 0xc0, 0xff, 0x95]) } else { ch.pick(&[0x80u8, 0xbf, 0x3f, 0xc1]) }); }
    let mut hd = vec![0xff, 0xf8 | variable as u8, 0x69, 0x08];
    hd.extend(&num);
    hd.push(3);
    judge(ch, &around(&hd, None), Exact::Yes)?;
    ch.sample(|| format!("number {:x?} variable {}", num, variable));
    Ok(())
}
pub fn hd_varint_all(ch: &mut Ch) -> R {
    // Every continuation byte value at every position.
    let len = ch.range(2, 7);
    let pos = ch.range(1, len - 1);
    let variable = ch.flag();
    let fill = ch.pick(&[0x80u8, 0xbf, 0xa5]);
    for x in 0..=255u8 {
        let mut num = vec![fill; len];
        num[0] = !(0xffu32 >> len) as u8 | if len < 6 { 1 } else { 0 };
        num[pos] = x;
        let mut hd = vec![0xff, 0xf8 | variable as u8, 0x69, 0x08];
        hd.extend(&num);
        hd.push(3);
        judge(ch, &around(&hd, None), Exact::Yes)?;
    }
    Ok(())
}
pub fn some_headers() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (bs, chan, bps, var, num) in [(16usize, Chan::Ind(1), 8u32, false, 0u64), (192, Chan::LS, 16, true, 192), (4096, Chan::MS, 24, false, 300), (17, Chan::RS, 12, true, 1 << 20), (65535, Chan::Ind(1), 20, true, (1 << 36) - 1), (256, Chan::Ind(8), 16, false, (1 << 31) - 1), (1, Chan::Ind(2), 16, true, 0x12345), (600, Chan::Ind(3), 8, false, 77)] {
        for (sc, se) in [(9u8, 0u16), (12, 44), (13, 0xbeef), (0, 0)] { let mut h = Hdr::new(bs, chan, bps, var, num); h.sr_code = sc; h.sr_ext = se; v.push(h.nocrc()); }
    }
    v
}
pub fn hd_crc(ch: &mut Ch) -> R {
    let hs = some_headers();
    let hd = &hs[ch.choose(hs.len())];
    let bs = refdec::header(&[&hd[..], &[crc8(hd)]].concat()).map(|h| h.bs).unwrap_or(0);
    for c in 0..=255u8 { if bs > 5000 && c % 5 != 0 && c != crc8(hd) { continue; } judge(ch, &around(hd, Some(c)), Exact::Yes)?; }
    ch.sample(|| format!("header {} with every checksum", hex(hd)));
    Ok(())
}
/// Bit flips in headers, checksums repaired.
pub fn hd_flips(ch: &mut Ch) -> R {
    let hs = some_headers();
    let mut hd = hs[ch.choose(hs.len())].clone();
    let n = hd.len() * 8;
    let i = ch.choose(n);
    hd[i / 8] ^= 128 >> (i % 8);
    judge(ch, &around(&hd, None), Exact::No)?;
    for j in i + 1..n { hd[j / 8] ^= 128 >> (j % 8); judge(ch, &around(&hd, None), Exact::No)?; hd[j / 8] ^= 128 >> (j % 8); }
    heartbeat();
    Ok(())
}
/// Every channel code x sample size x block size code, with real content.
pub fn hd_combos(ch: &mut Ch) -> R {
    let cc = ch.choose(11);
    let chan = if cc < 8 { Chan::Ind(cc as u8 + 1) } else { [Chan::LS, Chan::RS, Chan::MS][cc - 8] };
    let bps = ch.pick(&BPS);
    let bc = ch.range(1, 15) as u8;
    let bs = match bc { 6 => 19, 7 => 261, c => bs_of_code(c).unwrap() };
    if ch.quick() && bs > 2400 && (cc > 2 && cc < 8) { return Ok(()); }
    for sc in 0..15u8 {
        if bs > 600 && sc % 5 != 4 { continue; }
        let mut h = Hdr::new(bs, chan, bps, sc % 2 == 0, 5);
        h.bs_code = bc; h.sr_code = sc; h.sr_ext = 200;
        let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| wave(bs, bps, c, 1 + sc as usize)).collect();
        let f = frame(&h, chan, bps, &pcm, &[sub(Kind::Verbatim)]).unwrap();
        if !judge(ch, &f, Exact::Yes)? { panic!("well-formed frame not strict") }
    }
    ch.sample(|| format!("{:?} {} bit block size code {} and every sample rate code", chan, bps, bc));
    Ok(())
}
pub fn c10() -> Prop {
    Prop { id: "C10", level: "model_checking",
        rule: "a case is a header bit pattern completed to a whole frame (checksums right unless they are the point); verdict, error class, block size, channels, position and samples are compared with the reference; distinct: frame bytes",
        assumptions: &["an over-long coding of a number may be accepted or rejected", "when several fields are wrong at once only the rejection, not its class, is checked"],
        families: vec![
            fam!("first-two", "all 65536 first two bytes x 3 continuations", hd_first2),
            fam!("fields", "all 65536 third and fourth bytes x 2 strategies x 4 numbers", hd_fields),
            fam!("extended", "block sizes and rates coded at the end of the header: all (quick: a third of) 16-bit values in 5 forms x 2 strategies", hd_ext),
            fam!("number", "every first byte x every continuation over boundary bytes x 2 strategies", hd_varint),
            fam!("number-bytes", "every value of every continuation byte, all lengths", hd_varint_all),
            fam!("checksum", "all 256 header checksums on 32 headers", hd_crc),
            fam!("flips", "all 1- and 2-bit changes of 32 headers, checksums repaired", hd_flips),
            fam!("combinations", "11 channel codes x 5 sample sizes x 15 block size codes x 15 rate codes", hd_combos),
            fam!("pool", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus): every header bit flipped, checksums repaired", p_pool::header_changes),
            fam!("histories", "every sequence of 4 (5) reads by one reader over some 50 events (good frames of many shapes, damage, ill-formed headers and subframes, ends, source errors) that ends in an ill-formed header, with 4 sorts of buffers", crate::p_hist::hist_headers),
            fam!("repeated", "each of these events 1 to 257 (some 30 numbers) and 66000 times, then an ill-formed header, with one reader", crate::p_hist::rep_headers),
            fam!("size-rate", "every one-byte block size x every two-byte rate and one-byte rate, two-byte block sizes x rates like them", crate::p_fill::size_rate),
            fam!("every-code", "25 block sizes x 24 rates x 16 channel codes x 8 sample sizes x 7 number lengths x 2 strategies", crate::p_code::every_code),
            fam!("header-pairs", "pairs and triples of frames in one reader: 21 rates x 2 modes, 12 sizes x 21 rates, 30 channel modes and sample sizes", crate::p_real::header_pairs),
            fam!("three-bytes", "all two and all three bytes that are not a sync code, at the start and behind a frame, followed by the end, a frame or zeros", crate::p_junk::three_bytes),
            fam!("magics", "32 things that real files carry behind the audio x 0..2 frames in front x 4 fills x lengths to 140 and 12 more, then the end or a frame", crate::p_junk::magics),
            fam!("mixed-strategies", "4 (6) frames, each of either blocking strategy and 3 numbers, in one reader", crate::p_junk::mixed),
        ] }
}

// ------------------------------------------------------------------ C11

/// Completes subframe bits into a mono frame with the reference's help and judges it; also decodes it directly.
pub fn sub_judge(ch: &mut Ch, w: &BitW, bps: u32, bs: usize, fill: u8, exact: Exact) -> Result<bool, Viol> {
    let hd = Hdr::new(bs, Chan::Ind(1), bps, true, 0).bytes();
    let mut bits = w.v.clone();
    let n = w.bitlen();
    if n % 8 != 0 { let k = bits.len() - 1; bits[k] |= fill & ((1 << (8 - n % 8)) - 1); }
    let enough = if fill == 0 { 70 } else { (bs * 34 * 2) / 8 + 300 };
    bits.resize(bits.len() + enough, fill);
    if fill == 0 { bits.extend(std::iter::repeat(0xff).take((bs * 34) / 8 + 64)); }
    let r = refdec::subframe(&bits, 0, bps, bs);
    // directly, with the filler behind
    {
        let mut cur = SliceRb::new(&bits);
        let mut buf = vec![0x2aaa_aaaa; bs];
        let g = nopanic(&bits, || { let mut s = Bitstream::new(&mut cur); claxon::subframe::decode(&mut s, bps, &mut buf) })?;
        ch.exec(true);
        match (&g, &r) {
            (Ok(()), Ok((s, p, strict))) => {
                if cur.pos != (p + 7) / 8 { return violb(format!("subframe consumed {} bytes, expected {}", cur.pos, (p + 7) / 8), &bits); }
                if *strict { for i in 0..bs { if buf[i] as i64 != s[i] { return violb(format!("subframe sample {}: got {}, expected {}", i, buf[i], s[i]), &bits); } } }
            }
            (Err(e), Err(w)) => if exact == Exact::Yes && ec(e) != rej(w.0) { return violb(format!("subframe ({} bit, {} samples) failed with {:?}, expected {:?}", bps, bs, e, w), &bits) },
            (Ok(()), Err(w)) => return violb(format!("subframe ({} bit, {} samples) accepted, expected {:?}", bps, bs, w), &bits),
            (Err(e), Ok(_)) => if r.as_ref().unwrap().2 { return violb(format!("subframe ({} bit, {} samples) rejected: {:?}", bps, bs, e), &bits) },
        }
    }
    let mut f = hd;
    match r {
        Ok((_, p, _)) => {
            let nb = (p + 7) / 8;
            let mut body = bits[..nb].to_vec();
            if p % 8 != 0 { body[nb - 1] &= !((1u16 << (8 - p % 8)) - 1) as u8; }
            f.extend(body);
            let c = crc16(&f);
            f.extend(c.to_be_bytes());
        }
        Err(_) => f.extend(&bits),
    }
    judge(ch, &f, exact)
}
const SBS: [usize; 12] = [1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 48, 192];
pub fn sf_header(ch: &mut Ch) -> R {
    let ty = ch.choose(256) as u64;
    let bps = ch.pick(&BPS);
    let bs = ch.pick(&SBS);
    for fill in [0x00u8, 0xff, 0x55, 0x5b, 0x92, 0xb6] {
        for lead in 0..8u64 {
            // 3 bits after the header byte, then filler
            let mut w = BitW::new();
            w.put(ty, 8);
            w.put(lead, 3);
            sub_judge(ch, &w, bps, bs, fill, Exact::No)?;
        }
    }
    ch.sample(|| format!("subframe header {:#04x} {} bit {} samples x 8 continuations x 6 fillers", ty, bps, bs));
    Ok(())
}
/// Only the header byte is wrong.
pub fn sf_reserved(ch: &mut Ch) -> R {
    let ty = ch.choose(128) as u64; // padding bit and type
    let bps = ch.pick(&BPS);
    let bs = ch.pick(&[32usize, 33, 64, 100]);
    let mut w = BitW::new();
    w.put(ty << 1, 8);
    let t = ty & 63;
    let order = if (8..13).contains(&t) { t as usize - 8 } else if t >= 32 { t as usize - 31 } else { 0 };
    if t >= 2 { for i in 0..order { w.signed(i as i64 % 3 - 1, bps); } }
    if t >= 32 { w.put(3, 4); w.put(2, 5); for i in 0..order { w.signed([1, -1, 2][i % 3], 4); } }
    if t >= 8 { w.put(0, 2); w.put(0, 4); w.put(2, 4); for _ in order..bs { w.put(0b1_01, 3); } }
    if t == 0 { w.put(3, bps); }
    if t == 1 { for i in 0..bs { w.signed(i as i64 % 5, bps); } }
    let ok = sub_judge(ch, &w, bps, bs, 0xff, Exact::Yes)?;
    let legal = ty < 64 && (t < 2 || (8..13).contains(&t) || t >= 32);
    if ok != legal { panic!("case construction: type {} ok {}", ty, ok) }
    Ok(())
}
pub fn sf_wasted(ch: &mut Ch) -> R {
    let bps = ch.pick(&BPS);
    let z = ch.range(0, 70) as u64;
    let ty = ch.pick(&[0u64, 1, 8, 9, 10, 12, 32, 33, 44]);
    let bs = ch.pick(&[1usize, 2, 4, 16, 20]);
    let order = if (8..13).contains(&ty) { ty as usize - 8 } else if ty >= 32 { ty as usize - 31 } else { 0 };
    if order > bs { return Ok(()); }
    let mut w = BitW::new();
    w.put(ty << 1 | 1, 8);
    w.unary(z);
    for fill in [0xffu8, 0x5b, 0x92] { sub_judge(ch, &w, bps, bs, fill, if z as u32 + 1 >= bps { Exact::Yes } else { Exact::No })?; }
    ch.sample(|| format!("{} bit, {} wasted, type {}", bps, z + 1, ty));
    Ok(())
}
pub fn sf_order(ch: &mut Ch) -> R {
    let ty = ch.pick(&(8..13).chain(32..64).collect::<Vec<u64>>());
    let bs = ch.range(1, 40);
    let bps = ch.pick(&[8u32, 16, 24]);
    let order = if ty < 32 { ty as usize - 8 } else { ty as usize - 31 };
    let mut w = BitW::new();
    w.put(ty << 1, 8);
    for i in 0..order { w.signed(i as i64 % 3 - 1, bps); }
    if ty >= 32 { w.put(4, 4); w.put(1, 5); for i in 0..order { w.signed([1, -2, 2][i % 3], 5); } }
    w.put(0, 2); w.put(0, 4); w.put(3, 4);
    sub_judge(ch, &w, bps, bs, 0xff, Exact::Yes)?;
    ch.sample(|| format!("type {} (order {}) in a block of {}", ty, order, bs));
    Ok(())
}
pub fn sf_lpc(ch: &mut Ch) -> R {
    let prec = ch.choose(16) as u64;
    let shift = ch.choose(32) as u64;
    let order = ch.pick(&(1..=32).collect::<Vec<usize>>());
    let bps = ch.pick(&[8u32, 16, 24]);
    for bs in [order, order + 1, order + 20] {
        for fill in [0xffu8, 0x6d] {
            let mut w = BitW::new();
            w.put((31 + order as u64) << 1, 8);
            for i in 0..order { w.signed(i as i64 % 3 - 1, bps); }
            w.put(prec, 4); w.put(shift, 5);
            for i in 0..order { w.signed([0, 1, -1][i % 3] & if prec == 0 { -1 } else { !0 }, prec as u32 + 1); }
            w.put(0, 2); w.put(0, 4); w.put(2, 4);
            sub_judge(ch, &w, bps, bs, fill, if prec == 15 && shift >= 16 { Exact::No } else { Exact::Yes })?;
        }
    }
    ch.sample(|| format!("precision code {} shift code {} order {}", prec, shift, order));
    Ok(())
}
pub fn sf_residual(ch: &mut Ch) -> R {
    let method = ch.choose(4) as u64;
    let po = ch.choose(16) as u64;
    let mut sizes: Vec<usize> = (1..=ch.t(40, 130)).collect();
    sizes.extend([48, 64, 96, 128, 192, 256, 512, 576, 1024, 4096, 4608, 16384, 32768, 65535]);
    let bs = ch.pick(&sizes);
    for order in [0usize, 1, 2, 3, 4, 5, 6, 8, 9, 12, 13, 16, 17, 31, 32] {
        if order > bs { continue; }
        if bs > 2000 && !matches!(order, 0 | 1 | 4 | 32) { continue; }
        let mut w = BitW::new();
        if order <= 4 { w.put((8 + order as u64) << 1, 8); for _ in 0..order { w.put(1, 8); } }
        else { w.put((31 + order as u64) << 1, 8); for _ in 0..order { w.put(1, 8); } w.put(0, 4); w.put(0, 5); for _ in 0..order { w.put(0, 1); } }
        w.put(method, 2); w.put(po, 4);
        // one partition parameter repeated bit pattern: parameter 0 and quotient 0 everywhere
        let plen = bs >> po;
        let parts = 1usize << po;
        let ok = method < 2 && bs % parts == 0 && plen >= order;
        if ok { for p in 0..parts { w.put(0, if method == 0 { 4 } else { 5 }); for _ in 0..(if p == 0 { plen - order } else { plen }) { w.put(1, 1); } } }
        let exact = if method >= 2 { Exact::Yes } else { Exact::Yes };
        let r = sub_judge(ch, &w, 8, bs, 0x11, exact)?;
        if r != ok { panic!("case construction: method {} partition order {} block {} order {}: {}", method, po, bs, order, r) }
        if !ok { for fill in [0xffu8, 0x00] { if bs < 600 { sub_judge(ch, &w, 8, bs, fill, Exact::Yes)?; } } }
    }
    ch.sample(|| format!("method {} partition order {} block {} x 15 predictor orders", method, po, bs));
    Ok(())
}
pub fn sf_escape(ch: &mut Ch) -> R {
    let rice2 = ch.flag();
    let (kb, esc) = if rice2 { (5, 31u64) } else { (4, 15) };
    let po = ch.range(0, 4) as u32;
    let parts = 1usize << po;
    let at = ch.choose(parts);
    let order = ch.pick(&[0usize, 1, 2, 4]);
    let plen = ch.pick(&[4usize, 5, 16]);
    let k = ch.choose(esc as usize + 1) as u64; // the parameter of partition `at`
    let mut w = BitW::new();
    w.put((8 + order as u64) << 1, 8);
    for _ in 0..order { w.put(1, 16); }
    w.put(rice2 as u64, 2); w.put(po as u64, 4);
    for p in 0..parts {
        let kk = if p == at { k } else { 1 };
        w.put(kk, kb);
        let n = if p == 0 { plen - order } else { plen };
        if kk == esc { w.put(5, 5); for _ in 0..n { w.put(3, 5); } } else { for _ in 0..n { w.put(1 << kk | (1 & ((1 << kk) - 1)), kk as u32 + 1); } }
    }
    for fill in [0xff, 0x5a] { sub_judge(ch, &w, 16, plen << po, fill, Exact::Yes)?; }
    ch.sample(|| format!("rice2 {} partition {} of {} has parameter {}", rice2, at, parts, k));
    Ok(())
}
/// The bad subframe in any channel of a multi-channel frame.
pub fn sf_channels(ch: &mut Ch) -> R {
    let cc = ch.choose(11) as u8;
    let n = if cc < 8 { cc as usize + 1 } else { 2 };
    let bad = ch.choose(n);
    let kind = ch.choose(7);
    let h = { let mut h = Hdr::new(16, Chan::Ind(1), 16, true, 0); h.ch_code = cc; h };
    let mut w = BitW::new();
    for c in 0..n {
        let b = 16 + match cc { 8 | 10 => (c == 1) as u32, 9 => (c == 0) as u32, _ => 0 };
        if c != bad { w.put(0, 8); w.put(c as u64, b); continue; }
        match kind {
            0 => { w.put(0x80, 8); w.put(1, b) }
            1 => { w.put(2 << 1, 8); w.put(1, b) }
            2 => { w.put(1, 8); w.unary(b as u64 - 1); w.put(1, b) }
            3 => { w.put(8 << 1, 8); w.put(2, 2); w.put(0, 4); for _ in 0..16 { w.put(1, 1) } }
            4 => { w.put(8 << 1, 8); w.put(0, 2); w.put(5, 4); for _ in 0..32 { w.put(1, 5) } }
            5 => { w.put(8 << 1, 8); w.put(0, 2); w.put(0, 4); w.put(15, 4); for _ in 0..16 { w.put(1, 5) } }
            // legal: one bit left after the wasted ones
            _ => { w.put(1, 8); w.unary(b as u64 - 2); w.put(1, 1) }
        }
    }
    let mut f = h.bytes();
    f.extend(&w.v);
    let c = crc16(&f);
    f.extend(c.to_be_bytes());
    judge(ch, &f, Exact::Yes)?;
    ch.sample(|| format!("channel code {} bad channel {} defect {}", cc, bad, kind));
    Ok(())
}
/// Every 16-bit prefix of a subframe.
pub fn sf_prefix(ch: &mut Ch) -> R {
    let a = ch.choose(256) as u64;
    let bs = ch.pick(&[1usize, 4, 16, 33]);
    let bps = ch.pick(&[8u32, 24]);
    let legal = a < 128 && { let t = a >> 1 & 63; t < 2 || (8..13).contains(&t) || t >= 32 };
    if !legal && bs != 16 { return Ok(()); }
    for b in 0..256u64 { for fill in [0x5bu8, 0xd6] { let mut w = BitW::new(); w.put(a, 8); w.put(b, 8); sub_judge(ch, &w, bps, bs, fill, Exact::No)?; } }
    Ok(())
}
pub fn c11() -> Prop {
    Prop { id: "C11", level: "model_checking",
        rule: "a case is a subframe bit pattern with a block and sample size, completed to a frame with valid checksums; verdict, class, samples and consumed bits of subframe::decode and of the frame reader are compared with the reference; distinct: frame bytes",
        assumptions: &["frames whose samples leave the nominal range, or with non-zero bits in the final padding, may be accepted or rejected", "when both a format error and an unsupported feature are present only the rejection is checked"],
        families: vec![
            fam!("header", "all 256 header bytes x 5 sample sizes x 12 block sizes x 48 continuations", sf_header),
            fam!("reserved", "all 128 padding/type values with otherwise well-formed content x 5 sample sizes x 4 block sizes: exact verdict and class", sf_reserved),
            fam!("wasted", "1..71 wasted bits x 5 sample sizes x 9 types x 5 block sizes", sf_wasted),
            fam!("order", "all 37 predictors x block sizes 1..40 x 3 sample sizes", sf_order),
            fam!("lpc", "16 precision codes x 32 shift codes x 32 orders x 3 sample sizes x 3 block sizes", sf_lpc),
            fam!("residual", "4 methods x 16 partition orders x block sizes 1..40/130 and 14 larger x 15 predictor orders: exact rule", sf_residual),
            fam!("escape", "every Rice parameter including the escape in every one of up to 16 partitions, both methods", sf_escape),
            fam!("channels", "7 defects in every channel of every channel assignment", sf_channels),
            fam!("prefix", "all 16-bit prefixes x 4 block sizes x 2 sample sizes x 2 fillers", sf_prefix),
            fam!("pool", "about 2500 small frames of the pool: every bit of the subframes flipped, every byte set to 4 values, checksum repaired", p_pool::body_changes),
            fam!("combinations-changed", "frames that differ from one of 3 (thorough: 5) base frames in up to 2 of 16 features x changed bits of the subframe headers, the data and the end, checksums put right", p_twise::changed),
            fam!("big-changed", "4 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features: some changed bits, checksums put right", p_twise::big_changed),
            fam!("histories", "every sequence of 4 (5) reads by one reader over some 50 events (good frames of many shapes, damage, ill-formed headers and subframes, ends, source errors) that ends in an ill-formed subframe, with 4 sorts of buffers", crate::p_hist::hist_subframes),
            fam!("repeated", "each of these events 1 to 257 (some 30 numbers) and 66000 times, then an ill-formed subframe, with one reader", crate::p_hist::rep_subframes),
            fam!("partition-parameters", "16 partition orders x 8 lengths of a partition x both residual methods x 7 predictors x every parameter, in all partitions or the first, last or middle one", crate::p_real::partition_parameters)
        ] }
}

// ------------------------------------------------------------------ C03

/// Frames whose layout does not depend on their content, and some whose does.
pub fn victims() -> &'static [(Vec<u8>, bool)] {
    static V: std::sync::OnceLock<Vec<(Vec<u8>, bool)>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let q = |chan: Chan, bps, n: usize, k: Kind, num| quick_frame(chan, bps, true, num, &(0..chan.n()).map(|c| if k == Kind::Constant { vec![c as i64 * 9 - 4; n] } else { wave(n, bps, c, n) }).collect::<Vec<_>>(), &[sub(k)]).unwrap();
        let mut v = vec![(q(Chan::Ind(1), 16, 1, Kind::Verbatim, 0), true), (q(Chan::LS, 8, 3, Kind::Verbatim, 300), true), (q(Chan::Ind(2), 12, 16, Kind::Constant, 5), true), (q(Chan::Ind(8), 24, 2, Kind::Verbatim, 1 << 30), true),
            (q(Chan::MS, 16, 8, Kind::Fixed(1, res(false, 1, K::Auto)), 77), false), (q(Chan::Ind(1), 16, 20, lpc(&[2, -1], 4, 1, res0()), 1), false), (q(Chan::RS, 24, 4, Kind::Fixed(2, res(true, 0, K::Auto)), 0), false)];
        // headers with every kind of field stored at their end, both block strategies, all lengths of the number
        for (i, (chan, bps, n, code, sc)) in [(Chan::Ind(1), 16u32, 3usize, 6u8, 12u8), (Chan::Ind(1), 8, 16, 7, 12), (Chan::LS, 16, 5, 7, 13), (Chan::MS, 12, 16, 6, 13), (Chan::RS, 20, 2, 7, 14), (Chan::Ind(3), 16, 16, 6, 14), (Chan::Ind(2), 8, 192, 1, 13), (Chan::Ind(1), 16, 256, 8, 12), (Chan::Ind(1), 8, 576, 2, 0), (Chan::Ind(7), 24, 1, 7, 9), (Chan::Ind(1), 24, 20, 6, 0)].into_iter().enumerate() {
            let mut h = Hdr::new(n, chan, bps, i % 2 == 0, 0);
            h.num = varint([0u64, 200, 5000, 70_000, 1 << 22, 1 << 27, 1 << 33][if i % 2 == 0 { i % 7 } else { i % 6 }], [1, 2, 3, 4, 5, 6, 7][if i % 2 == 0 { i % 7 } else { i % 6 }]);
            h.bs_code = code; h.sr_code = sc; h.sr_ext = 0x3a00 + 77 * i as u16;
            let big = n > 100;
            let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| if big { vec![3 - c as i64; n] } else { wave(n, bps, c, i) }).collect();
            v.push((frame(&h, chan, bps, &pcm, &[sub(if big { Kind::Constant } else { Kind::Verbatim })]).unwrap(), false));
        }
        for b in corpus() { for w in b.frame_offs.windows(2) { if w[1] - w[0] < 150 { v.push((b.bytes[w[0]..w[1]].to_vec(), false)); } } }
        v
    })
}
pub fn never(ch: &mut Ch, orig: &[u8], b: &[u8]) -> R {
    debug_assert!(orig != b);
    judge(ch, b, Exact::No).map(|_| ())
}
/// Every corrupted frame must be rejected, whatever the reference thinks.
pub fn must_reject(ch: &mut Ch, b: &[u8], what: &dyn Fn() -> String) -> R {
    let got = nopanic(b, || FrameReader::new(SliceRb::new(b)).read_next_or_eof(vec![]))?;
    ch.exec(true);
    match got { Err(_) => Ok(()), Ok(x) => violb(format!("{}: {}", what(), if x.is_some() { "delivered" } else { "taken for the end of the stream" }), b) }
}
pub fn co_crc16(ch: &mut Ch) -> R {
    let vs = victims();
    let (f, _) = &vs[ch.choose(vs.len())];
    let hi = ch.choose(256) as u8;
    let n = f.len();
    let good = [f[n - 2], f[n - 1]];
    let mut b = f.clone();
    for lo in 0..=255u8 {
        b[n - 2] = hi; b[n - 1] = lo;
        if [hi, lo] == good { if !judge(ch, &b, Exact::Yes)? { panic!("victim is not strict") } } else {
            let got = nopanic(&b, || FrameReader::new(SliceRb::new(&b)).read_next_or_eof(vec![]))?;
            ch.exec(true);
            if !matches!(got, Err(Error::FormatError(_))) { return violb(format!("stored frame checksum {:02x}{:02x} instead of {:02x}{:02x}: not rejected with a format error", hi, lo, good[0], good[1]), &b); }
        }
    }
    ch.state(hash_bytes(hi as u64, f));
    ch.sample(|| format!("frame {}.. with checksums {:02x}**", hex(&f[..f.len().min(12)]), hi));
    Ok(())
}
pub fn co_crc8(ch: &mut Ch) -> R {
    let vs = victims();
    let (f, _) = &vs[ch.choose(vs.len())];
    let at = refdec::header(f).unwrap().len - 1;
    for x in 0..=255u8 {
        let mut b = f.clone();
        if b[at] == x { continue; }
        b[at] = x;
        fix_crc16(&mut b);
        let got = nopanic(&b, || FrameReader::new(SliceRb::new(&b)).read_next_or_eof(vec![]))?;
        ch.exec(true);
        if !matches!(got, Err(Error::FormatError(_))) { return violb(format!("stored header checksum {:02x} instead of {:02x} (frame checksum made to match): not rejected with a format error", x, f[at]), &b); }
        // also with the frame checksum left as it was
        b.copy_from_slice(f); b[at] = x;
        must_reject(ch, &b, &|| format!("header checksum {:02x}", x))?;
    }
    ch.state(hash_bytes(9, f));
    Ok(())
}
/// All bursts: the first and last changed bit within 16, every pattern.
pub fn co_bursts(ch: &mut Ch) -> R {
    let vs = victims();
    let vi = ch.choose(if ch.quick() { 7 } else { vs.len() });
    let (f, fixed) = &vs[vi];
    let s = ch.choose(f.len() * 8);
    let width = ch.t(12, 16).min(f.len() * 8 - s);
    let hl = refdec::header(f).unwrap().len;
    let mut b = f.clone();
    for pat in 0..1u32 << (width - 1) {
        let pat = pat << 1 | 1; // first bit of the burst set; LSB first
        for i in 0..width { if pat >> i & 1 == 1 { let p = s + i; b[p / 8] ^= 128 >> (p % 8); } }
        let layout = *fixed && (s / 8 >= hl + 1) && vi != 3 && vi != 1 && vi != 2;
        if layout { must_reject(ch, &b, &|| format!("burst {:b} at bit {}", pat, s))?; } else { never(ch, f, &b)?; }
        b.copy_from_slice(f);
    }
    heartbeat();
    ch.sample(|| format!("frame {} ({} bytes), all bursts of up to {} bits from bit {}", vi, f.len(), width, s));
    Ok(())
}
pub fn co_bytes(ch: &mut Ch) -> R {
    let vs = victims();
    let (f, _) = &vs[ch.choose(vs.len())];
    let i = ch.choose(f.len());
    let mut b = f.clone();
    for x in 0..=255u8 { b[i] = x; if b != *f { never(ch, f, &b)?; } }
    b[i] = f[i];
    // two bytes changed
    let stride = ch.t(3, 1);
    for j in (i + 1..f.len()).step_by(stride) { for (x, y) in [(0xffu8, 0xffu8), (1, 1), (0x80, 1), (0x55, 0xaa), (1, 0x80), (7, 0xe0)] { b[i] ^= x; b[j] ^= y; never(ch, f, &b)?; b[i] = f[i]; b[j] = f[j]; } }
    heartbeat();
    Ok(())
}
pub fn co_bitpairs(ch: &mut Ch) -> R {
    let vs = victims();
    let (f, _) = &vs[ch.choose(vs.len())];
    let i = ch.choose(f.len() * 8);
    let mut b = f.clone();
    b[i / 8] ^= 128 >> (i % 8);
    for j in i + 1..f.len() * 8 { b[j / 8] ^= 128 >> (j % 8); never(ch, f, &b)?; b[j / 8] ^= 128 >> (j % 8); }
    heartbeat();
    Ok(())
}
/// Changes within a stream of frames: what is delivered must be what the reference delivers.
pub fn co_streams(ch: &mut Ch) -> R {
    let bi = ch.choose(5);
    let b = &corpus()[bi];
    let a0 = b.frame_offs[0];
    let kind = ch.choose(7);
    let i = ch.choose(b.bytes.len() - a0);
    let mut audio = b.bytes[a0..].to_vec();
    let vals: Vec<u8> = match kind { 0 => (0..=255).collect(), 1 | 2 => vec![0, 0xff, 0x55], _ => vec![0] };
    for x in vals {
        let n = audio.len();
        match kind {
            0 => { if audio[i] == x { continue; } audio[i] = x }
            1 => audio.insert(i, x),
            2 => { audio[i] = x; if i + 1 < n { audio[i + 1] ^= 0x10; } }
            3 => { audio.remove(i); }
            4 => { if i + 1 < n { audio.swap(i, i + 1) } }
            5 => { let y = audio[i]; audio.insert(i, y) }
            _ => { let e = (i + 4).min(n); audio.drain(i..e); }
        }
        let (fr, end, _) = refdec::frames(&audio);
        let mut rd = FrameReader::new(SliceRb::new(&audio));
        let mut sbs = None;
        let mut p = 0;
        for (k, (_, w)) in fr.iter().enumerate() {
            let g = nopanic(&audio, || rd.read_next_or_eof(vec![]))?;
            match g {
                Ok(Some(g)) => {
                    let t = if w.variable { w.number } else { w.number * *sbs.get_or_insert(w.bs as u64) };
                    if w.strict { if let Err(m) = same(&g, &w.blk(t)) { return violb(format!("block {}: {}", k, m), &audio); } }
                    p += 1;
                }
                Err(_) if !w.strict => break,
                Err(e) => return violb(format!("block {} rejected: {:?}", k, e), &audio),
                Ok(None) => return violb(format!("end before block {}", k), &audio),
            }
        }
        if p == fr.len() {
            let g = nopanic(&audio, || rd.read_next_or_eof(vec![]))?;
            match (g, end) { (Ok(None), None) | (Err(_), Some(_)) => {} (g, e) => return violb(format!("after {} blocks: {}, expected {:?}", p, match g { Ok(Some(_)) => "a further block", Ok(None) => "the end", Err(_) => "an error" }, e), &audio) }
        }
        ch.exec(true);
        ch.state(hash_bytes(0, &audio));
        audio.clear();
        audio.extend(&b.bytes[a0..]);
    }
    ch.sample(|| format!("{} change kind {} at {}", b.name, kind, i));
    Ok(())
}
/// Frames over all contents of two bytes: every checksum state is met on a good frame and on a damaged one.
pub fn co_tables(ch: &mut Ch) -> R {
    let a = ch.choose(256) as u8;
    for b in 0..=255u8 {
        let v = i16::from_be_bytes([a, b]) as i64;
        let f = quick_frame(Chan::Ind(1), 16, true, 0, &[vec![v, !v]], &[sub(Kind::Verbatim)]).unwrap();
        if !judge(ch, &f, Exact::Yes)? { panic!("not strict") }
        let mut g = f.clone();
        let n = g.len();
        g[n - 5] ^= 0x10;
        must_reject(ch, &g, &|| "one flipped bit".into())?;
        // header checksum states: vary the coded number
        let num = (a as u64) << 8 | b as u64;
        let f = quick_frame(Chan::Ind(1), 8, true, num * 0x1_0001, &[vec![1]], &[sub(Kind::Constant)]).unwrap();
        if !judge(ch, &f, Exact::Yes)? { panic!("not strict") }
    }
    ch.sample(|| format!("contents {:02x}**", a));
    Ok(())
}
/// Long frames: damage far from the checksum.
pub fn co_long(ch: &mut Ch) -> R {
    let n = ch.pick(&[600usize, 1100, 4096]);
    let f = quick_frame(Chan::Ind(1), 16, false, 3, &[wave(n, 16, 0, n)], &[sub(Kind::Verbatim)]).unwrap();
    if !judge(ch, &f, Exact::Yes)? { panic!("not strict") }
    let i = ch.choose(64) * (f.len() - 9) / 64 + 8;
    for d in 0..(f.len() / 64).min(40) { let i = (i + d).min(f.len() - 1); for bit in 0..8 {
        let mut b = f.clone();
        b[i] ^= 1 << bit;
        let buffered = bit % 2 == 0;
        let got = nopanic(&b, || if buffered { FrameReader::new(BufferedReader::new(&b[..])).read_next_or_eof(vec![]) } else { FrameReader::new(SliceRb::new(&b)).read_next_or_eof(vec![]) })?;
        ch.exec(true);
        if got.is_ok() { return violb(format!("bit {} of byte {} flipped: delivered", bit, i), &b); }
    } }
    ch.state(mix(n as u64, i as u64));
    Ok(())
}
/// Wrong checksum combined with every kind of content and reader interface.
pub fn co_ifaces(ch: &mut Ch) -> R {
    let bi = ch.choose(5);
    let b = &corpus()[bi];
    let fi = ch.choose(b.blks.len());
    let what = ch.choose(3);
    let mut f = b.bytes.clone();
    let hl = refdec::header(&f[b.frame_offs[fi]..]).unwrap().len;
    match what { 0 => f[b.frame_offs[fi + 1] - 1] ^= 1, 1 => f[b.frame_offs[fi + 1] - 2] ^= 0x80, _ => { f[b.frame_offs[fi] + hl - 1] ^= 4; let (s, e) = (b.frame_offs[fi], b.frame_offs[fi + 1]); fix_crc16(&mut f[s..e]); } }
    let want: Vec<i32> = b.blks[..fi].iter().flat_map(inter).collect();
    let r = nopanic(&f, || { let mut r = FlacReader::new(&f[..]).unwrap(); samples(&mut r.samples(), 1 << 20) })?;
    if r.v != want || r.end != Err(E::Format) { return violb(format!("samples(): {} samples then {:?}, expected {} then a format error", r.v.len(), r.end, want.len()), &f); }
    let r = nopanic(&f, || { let r = FlacReader::new(&f[..]).unwrap(); samples(&mut r.into_samples(), 1 << 20) })?;
    if r.v != want || r.end != Err(E::Format) { return violb(format!("into_samples(): {} samples then {:?}, expected {} then a format error", r.v.len(), r.end, want.len()), &f); }
    let g = nopanic(&f, || full(&f[..]))?;
    let mut w: Vec<Ob> = b.blks[..fi].iter().cloned().map(Ob::Blk).collect();
    w.push(Ob::Err(E::Format));
    if g.obs != w { return violb(format!("blocks(): {}, expected {}", show(&g.obs), show(&w)), &f); }
    ch.execs(3, 3);
    ch.state(mix(bi as u64 * 100 + fi as u64, what as u64));
    Ok(())
}
pub fn c03() -> Prop {
    Prop { id: "C03", level: "model_checking",
        rule: "a case is a damaged frame or stream; it may be delivered only if the independent reference finds both checksums right (and for damage that cannot move field boundaries, never). Distinct: damaged bytes",
        assumptions: &["victims are small frames (10 to 150 bytes) of every subframe kind, plus long verbatim frames with single-bit damage"],
        families: vec![
            fam!("frame-checksum", "all 65536 stored frame checksums on every victim: format error unless right", co_crc16),
            fam!("header-checksum", "all wrong stored header checksums on every victim, frame checksum matching or not", co_crc8),
            fam!("bursts", "all bursts of up to 12 (quick) / 16 bits at every bit of the victims", co_bursts),
            fam!("bytes", "every value of every byte, and pairs of changed bytes with 6 patterns", co_bytes),
            fam!("bit-pairs", "every pair of flipped bits", co_bitpairs),
            fam!("streams", "substitution, insertion, deletion, swap, duplication at every byte of 5 streams, drained to the end", co_streams),
            fam!("states", "good and damaged frames over all contents of two bytes and 65536 numbers: all checksum states", co_tables),
            fam!("long", "single-bit damage in frames of up to 8 KiB", co_long),
            fam!("interfaces", "wrong header or frame checksum in every frame of 5 streams through blocks, samples, into_samples", co_ifaces),
            fam!("pool", "about 2500 small frames of the pool: every single bit flipped, neighbouring bytes exchanged", p_pool::bit_damage),
            fam!("pool-sums", "about 2500 small frames of the pool: 12 wrong frame checksums, about 90 wrong header checksums with a right or wrong frame checksum", p_pool::wrong_sums),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features x every inverted bit (of frames over 60 bytes the first 120, the last 24 and a spread of others)", p_twise::flips),
            fam!("big-combinations", "4 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features: every bit of the frame checksum and 10 other bits inverted", p_twise::big_damage),
            fam!("every-size", "a constant frame of every size up to 65535: the last 40 and an eleventh of the other bits inverted", p_twise::size_damage),
            fam!("histories", "every sequence of 4 (5) reads by one reader over some 50 events (good frames of many shapes, damage, ill-formed headers and subframes, ends, source errors) that ends in damage, with 4 sorts of buffers", crate::p_hist::hist_damaged),
            fam!("repeated", "each of these events 1 to 257 (some 30 numbers) and 66000 times, then damage, with one reader", crate::p_hist::rep_damaged),
            fam!("every-code", "every valid header of 25 block sizes x 24 rates x 16 channel codes x 8 sample sizes x 7 number lengths x 2 strategies, under 10 wrong checksums", crate::p_code::every_sum),
        ] }
}

// ------------------------------------------------------------------ C02

pub fn poke(e: &Error) -> usize {
    #[allow(deprecated)]
    { use std::error::Error as _; let s = format!("{} {:?} {}", e, e, e.description()); let _ = e.source(); let _ = e == e; s.len() }
}
/// Everything a client can do with these bytes through the stream reader.
pub fn all_of_flac(b: &[u8], chunk: Chunk) -> R {
    for (mo, vc) in [(false, true), (true, true), (false, false), (true, false)] {
        nopanic(b, || {
            match FlacReader::new_ext(Src::new(b).chunk(chunk.clone()).scribble(0xff), opts(mo, vc)) {
                Err(e) => { poke(&e); }
                Ok(mut r) => {
                    let _ = meta_ob(&r);
                    let _ = r.get_tag("a").count();
                    if !mo && vc {
                        let mut buf = vec![];
                        for _ in 0..40 { match r.blocks().read_next_or_eof(buf) { Ok(Some(x)) => buf = use_block(x), Ok(None) => break, Err(e) => { poke(&e); buf = vec![] } } }
                    } else if !mo { for _ in r.samples().take(3000) {} let _ = r.into_inner(); }
                }
            }
        })?;
    }
    nopanic(b, || { if let Ok(r) = FlacReader::new(b) { for x in r.into_samples().take(4000) { if let Err(e) = x { poke(&e); } } } })
}
pub fn use_block(x: Block) -> Vec<i32> {
    let mut s = x.time() as i64 + x.len() as i64;
    for c in 0..x.channels() { s += x.channel(c).len() as i64; if x.duration() > 0 { s += x.sample(c, x.duration() - 1) as i64; } }
    if x.channels() == 2 { for (a, b) in x.stereo_samples() { s ^= a as i64 ^ b as i64; } }
    std::hint::black_box(s);
    x.into_buffer()
}
pub fn all_of_frames(b: &[u8]) -> R {
    nopanic(b, || { let mut r = FrameReader::new(SliceRb::new(b)); let mut buf = vec![]; for _ in 0..40 { match r.read_next_or_eof(buf) { Ok(Some(x)) => buf = use_block(x), Ok(None) => break, Err(e) => { poke(&e); buf = vec![]; } } } })
}
pub fn all_of_meta(b: &[u8]) -> R {
    nopanic(b, || { for x in MetadataBlockReader::new(SliceRb::new(b)).take(50) { if let Err(e) = x { poke(&e); } } let _ = metadata::read_metadata_block_with_header(&mut Cursor::new(b)); })
}
/// All short continuations of prefixes that lead into different parts of the parser.
pub fn an_short(ch: &mut Ch) -> R {
    let pre: &[&[u8]] = &[b"", b"fLaC", b"fLaC\x00\x00\x00\x22", b"fLaC\x80\x00\x00\x22\x10\x00\x10\x00\x00\x00\x00\x00\x00\x00\x0a\xc4\x42\xf0\x00\x00\x00\x00\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0",
        b"fLaC\x00\x00\x00\x22\x10\x00\x10\x00\x00\x00\x00\x00\x00\x00\x0a\xc4\x42\xf0\x00\x00\x00\x00\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"];
    let p = pre[ch.choose(pre.len())];
    let n = ch.range(0, 3);
    let fill = ch.pick(&[None, Some(0u8), Some(0xff)]);
    let mut b = p.to_vec();
    if n == 3 && ch.quick() { b.push(ch.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0xfe, 0xff])); b.push(ch.pick(&[0u8, 0xff, 0xf8, 0xf9, 1])); b.push(ch.choose(256) as u8); }
    else { for _ in 0..n { b.push(ch.choose(256) as u8); } }
    if let Some(x) = fill { b.extend(std::iter::repeat(x).take(40)); }
    all_of_flac(&b, if n == 1 { Chunk::Uniform(1) } else { Chunk::Full })?;
    all_of_meta(&b[p.len().min(4)..])?;
    ch.execs(3, 3);
    ch.state(hash_bytes(0, &b));
    ch.sample(|| format!("{} then {}", p.len(), hex(&b[p.len()..])));
    Ok(())
}
/// All short subframe data behind headers of every shape.
pub fn an_frames(ch: &mut Ch) -> R {
    let cc = ch.pick(&[0u8, 1, 7, 8, 9, 10]);
    let bp = ch.pick(&[1u8, 2, 4, 5, 6, 0]);
    let bs = ch.pick(&[1usize, 2, 4, 16, 33, 192]);
    let mut h = Hdr::new(bs, Chan::Ind(1), 16, true, 1);
    h.ch_code = cc; h.bps_code = bp;
    let a = ch.choose(256) as u8;
    let fill = ch.pick(&[Some(0u8), Some(0xff), Some(0x5b), None]);
    let hb = h.bytes();
    let st = ch.t(5, 1);
    for x in (a % st as u8..=255u8).step_by(st) {
        let mut b = hb.clone();
        b.extend([a, x]);
        if let Some(f) = fill { b.extend(std::iter::repeat(f).take(200)); if f == 0 { b.extend([0xff; 100]) } }
        all_of_frames(&b)?;
    }
    let n = (256 - (a as u64 % st as u64)).div_ceil(st as u64);
    ch.execs(n, n);
    ch.state(mix(mix(cc as u64, bp as u64), mix(bs as u64, mix(a as u64, fill.map_or(999, |x| x as u64)))));
    ch.sample(|| format!("channel code {} sample size code {} block {} then {:02x}** and {:?}", cc, bp, bs, a, fill));
    Ok(())
}
/// subframe::decode with every sample size and block size it can be given.
pub fn an_subframe(ch: &mut Ch) -> R {
    let bps = ch.range(1, 32) as u32;
    let bs = ch.pick(&[0usize, 1, 2, 3, 5, 12, 13, 32, 33, 100]);
    let a = ch.choose(256) as u8;
    for x in (0..=255u8).step_by(ch.t(3, 1)) { for fill in [0x00u8, 0xff, 0x6b, 0x91] {
        let mut b = vec![a, x];
        b.resize(170, fill);
        let mut buf = vec![i32::MIN; bs];
        nopanic(&b, || { let mut c = SliceRb::new(&b); let mut s = Bitstream::new(&mut c); if let Err(e) = claxon::subframe::decode(&mut s, bps, &mut buf) { poke(&e); } })?;
        ch.exec(true);
    } }
    ch.state(mix(bps as u64, mix(bs as u64, a as u64)));
    Ok(())
}
/// All single-byte changes of real streams, checksums repaired so that they are not masked.
pub fn an_mutate(ch: &mut Ch) -> R {
    let b = &corpus()[ch.choose(5)];
    let i = ch.choose(b.bytes.len());
    let fi = b.frame_offs.windows(2).position(|w| w[0] <= i && i < w[1]);
    let x2 = if ch.quick() { 0 } else { ch.choose(4) };
    for x in 0..=255u8 {
        let mut f = b.bytes.clone();
        f[i] = x;
        if x2 > 0 { let j = (i + x2).min(f.len() - 1); f[j] ^= x.rotate_left(3) | 1; }
        if let Some(k) = fi {
            let (s, e) = (b.frame_offs[k], b.frame_offs[k + 1]);
            repair(&mut f, s, e);
            all_of_frames(&f[s..])?;
        } else {
            all_of_flac(&f, Chunk::Full)?;
            all_of_meta(&f[4..])?;
        }
        ch.exec(true);
        ch.state(hash_bytes(0, &f));
    }
    heartbeat();
    ch.sample(|| format!("{} byte {} every value", b.name, i));
    Ok(())
}
/// Repairs header and frame checksum of the frame in f[s..e] wherever the header now ends.
pub fn repair(f: &mut [u8], s: usize, e: usize) {
    let n = f[s + 4].leading_ones() as usize;
    let mut hl = 4 + n.max(1) + match f[s + 2] >> 4 { 6 => 1, 7 => 2, _ => 0 } + match f[s + 2] & 15 { 12 => 1, 13 | 14 => 2, _ => 0 };
    hl = hl.min(e - s - 3);
    f[s + hl] = crc8(&f[s..s + hl]);
    fix_crc16(&mut f[s..e]);
}
/// Two changed bytes within a frame, checksums repaired; over boundary values.
pub fn an_pairs(ch: &mut Ch) -> R {
    let b = &corpus()[ch.choose(5)];
    let k = ch.choose(b.blks.len());
    let (s, e) = (b.frame_offs[k], b.frame_offs[k + 1]);
    let n = (e - s).min(ch.t(24, 60));
    let i = ch.choose(n);
    for j in i + 1..n { for x in [0u8, 0xff, 0x01, 0x0f, 0xf0, 0x7f, 0x80, 0x55] { for y in [0u8, 0xff, 0x01, 0xf0, 0x7f, 0x1e] {
        let mut f = b.bytes[s..].to_vec();
        f[i] = x; f[j] = y;
        repair(&mut f, 0, e - s);
        all_of_frames(&f)?;
        ch.exec(true);
        ch.state(hash_bytes(0, &f[..e - s]));
    } } }
    heartbeat();
    Ok(())
}
/// Extreme samples and predictors: arithmetic at its limits.
pub fn an_extreme(ch: &mut Ch) -> R {
    let bps = ch.pick(&[1u32, 2, 8, 16, 24, 25, 31, 32]);
    let ty = ch.pick(&(8..13).chain(32..64).collect::<Vec<u64>>());
    let order = if ty < 32 { ty as usize - 8 } else { ty as usize - 31 };
    let wasted = ch.pick(&[0u32, 1, 7]);
    if wasted >= bps { return Ok(()); }
    let sb = bps - wasted;
    let warm = ch.choose(3);
    let prec = ch.pick(&[0u64, 7, 14]);
    let sh = ch.pick(&[0u64, 1, 15]);
    let cf = ch.choose(3);
    // long unary runs only with a few predictors in the quick tier
    let long = !ch.quick() || ([8, 10, 12, 32, 35, 63].contains(&ty) && warm == 0 && sh == 0 && cf == 0);
    for (rice2, k, q) in [(0u64, 14u64, 1u64), (0, 14, 131_071), (1, 30, 1), (1, 30, 3), (1, 30, 4), (1, 30, 40), (1, 14, 262_143), (0, 0, 65_537)] {
        if q > 1000 && !long { continue; }
        let n = 30;
        let mut w = BitW::new();
        w.put(ty << 1 | (wasted > 0) as u64, 8);
        if wasted > 0 { w.unary(wasted as u64 - 1); }
        let v = |i: usize| -> i64 { let (lo, hi) = (-(1i64 << (sb - 1)), (1i64 << (sb - 1)) - 1); match warm { 0 => hi, 1 => lo, _ => if i % 2 == 0 { hi } else { lo } } };
        for i in 0..order { w.signed(v(i), sb); }
        if ty >= 32 { w.put(prec, 4); w.put(sh, 5); let p = prec as u32 + 1; for i in 0..order { w.signed(match cf { 0 => -(1 << (p - 1)), 1 => (1i64 << (p - 1)) - 1, _ => if i % 2 == 0 { -(1i64 << (p - 1)) } else { (1i64 << (p - 1)) - 1 } }, p); } }
        w.put(rice2, 2); w.put(0, 4); w.put(k, if rice2 == 1 { 5 } else { 4 });
        for i in 0..n { w.unary(if q > 1000 && i > 2 { 0 } else { q }); w.put(if i % 3 == 0 { (1 << k) - 1 } else { i as u64 & ((1 << k) - 1) }, k as u32); }
        let bs = order + n;
        {
            let mut buf = vec![i32::MAX; bs];
            let b = w.v.clone();
            nopanic(&b, || { let mut c = SliceRb::new(&b); let mut s = Bitstream::new(&mut c); let _ = claxon::subframe::decode(&mut s, bps, &mut buf); })?;
            ch.exec(true);
            // as a stereo frame
            if [8, 16, 24].contains(&bps) {
                for cc in [8u8, 9, 10, 1] {
                    let mut h = Hdr::new(bs, Chan::Ind(1), bps, true, 0);
                    h.ch_code = cc;
                    let mut f = BitW::new();
                    let ex = |c: u32| match cc { 8 | 10 => (c == 1) as u32, 9 => (c == 0) as u32, _ => 0 };
                    for c in 0..2 { if ex(c) == 0 { let mut left = w.bitlen(); for &x in &w.v { let k = left.min(8); if k == 0 { break; } f.put((x >> (8 - k)) as u64, k as u32); left -= k; } } else { f.put(0, 8); f.put(1 << bps, bps + 1); } }
                    let mut v = h.bytes();
                    v.extend(&f.v);
                    let c = crc16(&v);
                    v.extend(c.to_be_bytes());
                    all_of_frames(&v)?;
                    ch.exec(true);
                }
            }
        }
    }
    heartbeat();
    ch.state(mix(mix(bps as u64, ty), mix(wasted as u64 * 100 + warm as u64, prec * 1000 + sh * 10 + cf as u64)));
    ch.sample(|| format!("{} bit type {} wasted {} warm-up {} precision {} shift {}", bps, ty, wasted, warm, prec + 1, sh));
    Ok(())
}
/// Metadata that claims any length, with little or no data behind it.
pub fn an_claims(ch: &mut Ch) -> R {
    let ty = ch.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 126, 127]);
    let lens: Vec<u32> = (0..48).chain((5..=24).flat_map(|i| [(1u32 << i).wrapping_sub(1), 1 << i, (1 << i) + 1])).chain([10 << 20, (10 << 20) + 1, (10 << 20) - 1]).filter(|&x| x < 1 << 24).collect();
    let l = ch.pick(&lens);
    let have = ch.pick(&[0usize, 1, 4, 8, 34, 100]);
    let x = ch.pick(&[0u8, 1, 0x3d, 0xff]);
    let body = vec![x; have];
    let mut b = b"fLaC\x00\x00\x00\x22\x10\x00\x10\x00\x00\x00\x00\x00\x00\x00\x0a\xc4\x42\xf0\x00\x00\x00\x00\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
    b.push(0x80 | ty);
    b.extend(&l.to_be_bytes()[1..]);
    b.extend(&body);
    all_of_flac(&b, Chunk::Full)?;
    all_of_meta(&b[42..])?;
    for t in [ty, 255, 128] { for ll in [l, l.wrapping_mul(257), u32::MAX - l] { nopanic(&body, || { let _ = metadata::read_metadata_block(&mut Cursor::new(&body[..]), t, if t == 4 || t == 2 { ll } else { ll }); })?; } }
    ch.execs(10, 10);
    ch.state(mix(mix(ty as u64, l as u64), mix(have as u64, x as u64)));
    ch.sample(|| format!("type {} claims {} bytes, {} there", ty, l, have));
    Ok(())
}
/// Vorbis comments: the interplay of the block length, vendor length, number of comments and comment lengths.
pub fn an_vorbis(ch: &mut Ch) -> R {
    let l = ch.pick(&(0..=28u32).chain([40, 255, 256, 257, (10 << 20), (10 << 20) + 1, (1 << 24) - 1, u32::MAX - 7, u32::MAX]).collect::<Vec<_>>());
    let mut vl: Vec<u32> = (0..=l.min(40).saturating_add(2)).collect();
    for d in 0..10 { vl.push(l.wrapping_sub(d)); vl.push(0u32.wrapping_sub(d)); vl.push((1 << 31) - 5 + d); }
    vl.sort(); vl.dedup();
    let v = ch.pick(&vl);
    if v > 1 << 20 && v < 1 << 30 { return Ok(()); }
    let counts = [0u32, 1, 2, 3, 4, 5, 6, 7, l / 4, (l / 4).wrapping_sub(1), l / 4 + 1, 1 << 30, 0x4000_0001, u32::MAX];
    let c = ch.pick(&counts);
    let mut first: Vec<u32> = (0..=8).collect();
    let room = l.wrapping_sub(8).wrapping_sub(v).wrapping_sub(4);
    for d in 0..6 { first.push(room.wrapping_sub(d)); first.push(room.wrapping_add(d)); first.push(0u32.wrapping_sub(d)); }
    first.sort(); first.dedup();
    for &a in &first { if a > 1 << 24 && a < 1 << 31 { continue; } for (second, fill) in [(0u32, b'='), (1, b'a'), (u32::MAX, b'='), (room.wrapping_sub(a).wrapping_sub(4), b'=')] {
        let mut b = v.to_le_bytes().to_vec();
        b.resize(4 + v.min(64) as usize, b'v');
        b.extend(c.to_le_bytes());
        b.extend(a.to_le_bytes());
        b.resize(b.len() + a.min(64) as usize, fill);
        b.extend(second.to_le_bytes());
        b.resize(b.len() + 60, fill);
        nopanic(&b, || { for have in [b.len(), (l as usize).min(b.len())] { let _ = metadata::read_metadata_block(&mut Cursor::new(&b[..have]), 4, l); } })?;
        if l < 1 << 24 {
            let mut f = b"fLaC\x00\x00\x00\x22\x10\x00\x10\x00\x00\x00\x00\x00\x00\x00\x0a\xc4\x42\xf0\x00\x00\x00\x00\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x84".to_vec();
            f.extend(&l.to_be_bytes()[1..]);
            f.extend(&b);
            all_of_flac(&f, Chunk::Full)?;
        }
        ch.exec(true);
    } }
    ch.state(mix(mix(l as u64, v as u64), c as u64));
    ch.sample(|| format!("block of {} bytes, vendor string of {}, {} comments, {} first lengths x 4 second ones", l, v, c, first.len()));
    Ok(())
}
/// Sources that misbehave in ways the type system allows.
struct Odd<'a> { b: &'a [u8], kind: usize, n: usize }
impl<'a> Read for Odd<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n > 5000 { panic!("source read again and again without end"); }
        let k = buf.len().min(self.b.len());
        match self.kind {
            0 => { let k = k.min(50); buf[..k].copy_from_slice(&self.b[..k]); self.b = &self.b[k..]; Ok(if self.n % 3 == 0 { buf.len() + 1 } else { k }) }
            1 => { buf[..k].copy_from_slice(&self.b[..k]); Ok(usize::MAX) }
            2 => { let k = k.min(20); buf[..k].copy_from_slice(&self.b[..k]); self.b = &self.b[k..]; Ok(if self.n % 4 == 3 { 1 << 32 } else { k }) }
            3 => Ok(0),
            4 => { for x in buf.iter_mut() { *x = 0xff; } let k = k.min(60); buf[..k].copy_from_slice(&self.b[..k]); self.b = &self.b[k..]; if self.n % 2 == 0 { Err(io::Error::new(io::ErrorKind::Interrupted, "again")) } else { Ok(k) } }
            5 => { buf[..k].copy_from_slice(&self.b[..k]); self.b = &self.b[k..]; if k == 0 { Ok(buf.len() * 2) } else { Ok(k) } }
            _ => { let k = k.min(30); buf[..k].copy_from_slice(&self.b[..k]); self.b = &self.b[k..]; Ok(if self.n == 5 { (1usize << 32) + k } else { k }) }
        }
    }
}
pub fn an_odd(ch: &mut Ch) -> R {
    let b = &corpus()[ch.choose(6)];
    let kind = ch.choose(7);
    let cut = ch.choose(b.bytes.len());
    let d = &b.bytes[cut..];
    let r = guard(|| {
        for mode in 0..3 {
            match FlacReader::new(Odd { b: &b.bytes, kind, n: cut }) {
                Err(e) => { poke(&e); }
                Ok(mut r) => match mode {
                    0 => { for _ in 0..20 { match r.blocks().read_next_or_eof(vec![]) { Ok(Some(x)) => { use_block(x); } Ok(None) => break, Err(e) => { poke(&e); } } } }
                    1 => { for _ in 0..3 { for _ in r.samples().take(500) {} } }
                    _ => { for _ in r.into_samples().take(2000) {} }
                }
            }
        }
        let mut f = FrameReader::new(BufferedReader::new(Odd { b: d, kind, n: 0 }));
        for _ in 0..30 { if let Ok(None) = f.read_next_or_eof(vec![]) { break; } }
        let mut q = BufferedReader::new(Odd { b: d, kind, n: 1 });
        for i in 0..60 { match i % 5 { 0 => { let _ = q.read_u8(); } 1 => { let _ = q.read_into(&mut [0; 70]); } 2 => { let _ = q.skip(33); } 3 => { let _ = q.read_be_u16_or_eof(); } _ => { let _ = q.read_u8_or_eof(); } } }
    });
    // A client of an endless interrupting source may be told so for ever, but must be told.
    if let Err(m) = r { return violb(format!("source behaviour {} from byte {}: {}", kind, cut, m), &b.bytes); }
    ch.execs(5, 5);
    ch.state(mix(hash_bytes(0, b.name.as_bytes()), mix(kind as u64, cut as u64)));
    ch.sample(|| format!("{} source behaviour {} phase {}", b.name, kind, cut));
    Ok(())
}
struct Zeros(u64);
impl ReadBytes for Zeros {
    #[inline(always)]
    fn read_u8(&mut self) -> io::Result<u8> { if self.0 == 0 { Err(io::Error::new(io::ErrorKind::UnexpectedEof, "eof")) } else { self.0 -= 1; if self.0 & 0xfff_ffff == 0 { heartbeat(); } Ok(if self.0 < 64 { 0xff } else { 0 }) } }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { Ok(Some(self.read_u8()?)) }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> { for x in b { *x = self.read_u8()?; } Ok(()) }
    fn skip(&mut self, n: u32) -> io::Result<()> { for _ in 0..n { self.read_u8()?; } Ok(()) }
}
struct Chained<'a>(SliceRb<'a>, Zeros);
impl<'a> ReadBytes for Chained<'a> {
    #[inline(always)]
    fn read_u8(&mut self) -> io::Result<u8> { if self.0.pos < self.0.b.len() { self.0.read_u8() } else { self.1.read_u8() } }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { Ok(Some(self.read_u8()?)) }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> { for x in b { *x = self.read_u8()?; } Ok(()) }
    fn skip(&mut self, n: u32) -> io::Result<()> { for _ in 0..n { self.read_u8()?; } Ok(()) }
}
/// More than 2^32 zero bits in each of the places where zeros are counted.
pub fn an_zeros(ch: &mut Ch) -> R {
    let place = ch.choose(5);
    let zeros = 64 + ch.pick(&[(1u64 << 29) - 1, 1 << 29, (1 << 29) + 1]);
    let mut w = BitW::new();
    match place {
        0 => w.put(1, 8),
        1 => { w.put(8 << 1, 8); w.put(0, 2); w.put(0, 4); w.put(0, 4); }
        2 => { w.put(8 << 1, 8); w.put(1, 2); w.put(0, 4); w.put(30, 5); }
        3 => { w.put(8 << 1, 8); w.put(0, 2); w.put(0, 4); w.put(14, 4); }
        _ => {}
    }
    let r = guard(|| {
        let mut c = Chained(SliceRb::new(&w.v), Zeros(zeros));
        let mut s = Bitstream::new(&mut c);
        if place == 4 { let _ = s.read_unary(); } else { let mut buf = [0i32; 2]; let _ = claxon::subframe::decode(&mut s, 24, &mut buf); }
    });
    ch.exec(true);
    ch.state(mix(place as u64, zeros));
    ch.sample(|| format!("{} zero bytes at place {}", zeros - 64, place));
    if let Err(m) = r { return violb(format!("{} zero bytes after {}: {}", zeros - 64, hex(&w.v), m), &w.v); }
    Ok(())
}
/// The values that exist without any input.
pub fn an_values(ch: &mut Ch) -> R {
    let r = guard(|| { let b = Block::empty(); (b.time(), b.len(), b.duration(), b.channels(), b.into_buffer().len()) });
    ch.exec(true);
    ch.state(1);
    if r != Ok((0, 0, 0, 0, 0)) { return viol(format!("Block::empty(): {:?}", r)); }
    Ok(())
}
pub fn c02() -> Prop {
    Prop { id: "C02", level: "model_checking",
        rule: "a case is a byte string or source behaviour given to the public entry points, with overflow checks and debug assertions on; no panic, no endless reading (fuel-limited sources), no process abort (cases run under a supervising process). Distinct: input bytes or parameter tuples",
        assumptions: &["byte strings beyond 3 arbitrary bytes are reached only as continuations and changes of structured prefixes", "an out-of-bounds access is noticed through a debug assertion, a crash or a wrong value; the crate's three unchecked accesses are additionally pinned by C05, C08 and C19", "subframe::decode is called with at most 65535 samples and 1 to 32 bits"],
        families: vec![
            fam!("short", "all byte strings of up to 2 bytes (3 in thorough, a subset in quick) behind 5 prefixes x 3 fillers, all entry points and options", an_short),
            fam!("frames", "all two-byte strings (quick: a fifth, every first byte with every second one modulo 5) behind valid headers of 216 shapes x 4 fillers", an_frames),
            fam!("subframe", "subframe::decode with 1..32 bits x 10 block sizes x all two-byte strings (quick: a third) x 4 fillers", an_subframe),
            fam!("mutate", "every value of every byte of 5 streams (thorough: with 3 secondary changes), checksums repaired", an_mutate),
            fam!("pairs", "pairs of changed bytes in every frame x 48 value pairs, checksums repaired", an_pairs),
            fam!("extreme", "extreme warm-up samples, coefficients and residuals x 37 predictors x 8 sample sizes x 3 wasted bits (quick: very long unary codes with 6 predictors only)", an_extreme),
            fam!("claims", "10 block types x 110 declared lengths up to 2^24 x 6 amounts of data x 4 contents", an_claims),
            fam!("vorbis", "Vorbis comment blocks of 37 lengths x all vendor lengths around each limit x 14 comment counts x comment lengths around each limit", an_vorbis),
            fam!("odd-sources", "7 source behaviours (overstated counts, endless interruption, nothing at all) x 6 streams x every phase", an_odd),
            fam!("zeros", "2^32 and more zero bits in every place where zeros are counted", an_zeros),
            fam!("values", "the empty block", an_values),
            fam!("headers", "every third and fourth header byte x 2 strategies x 6 boundary numbers (quick: a quarter of the combinations for five of them) x boundary extensions, checksum right", p_pool::headers),
            fam!("sizes", "every block size up to 2400 and some 200 interesting larger ones (thorough: all) x 11 channel modes, all accessors", p_pool::use_sizes),
            fam!("pool", "about 2500 small frames of the pool: every bit of the subframes flipped, header bytes set to 9 values, checksums repaired", p_pool::use_flips),
            fam!("combinations-changed", "frames that differ from one of 3 (thorough: 5) base frames in up to 2 of 16 features x changed bits of the subframe headers, the data and the end, checksums put right", p_twise::changed),
            fam!("big-changed", "4 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features: some changed bits, checksums put right", p_twise::big_changed),
            fam!("tag-texts", "lookups of every sort of name in comments with multi-byte characters", crate::p_hist::tag_texts),
            fam!("many-blocks", "up to 2^20 metadata blocks", crate::p_hist::many_blocks),
            fam!("repeated", "each of some 50 good and bad events up to 66000 times with one reader", crate::p_hist::rep_ends),
            fam!("deep", "runs of up to some millions of zero bits, bytes to skip and empty, equal or excess comments", crate::p_iter::deep),
            fam!("far-bytes", "buffered readers after up to 2^33 skipped bytes: 17 calls in 17 orders over the 2^31 and 2^32 marks", crate::p_far::buffered),
            fam!("far-metadata", "more than 4 GiB of metadata of 4 types, 3 ways (quick: one each)", crate::p_far::metadata),
        ] }
}

// ------------------------------------------------------------------ C09

pub fn tiny(variable: bool, num: Vec<u8>, bs: usize, bps: u32) -> Vec<u8> {
    let mut h = Hdr::new(bs, Chan::Ind(1), bps, variable, 0);
    h.num = num;
    let mut v = h.bytes();
    let mut w = BitW::new();
    w.put(0, 8); w.put(1, bps);
    v.extend(&w.v);
    let c = crc16(&v);
    v.extend(c.to_be_bytes());
    v
}
pub fn t_numbers(ch: &mut Ch) -> R {
    let variable = ch.flag();
    let l: Vec<u64> = { let mut l = vec![]; for i in 0..=36u32 { for d in -2i64..=2 { l.push((1i64 << i) + d); } } for m in [0x5_5555_5555i64, 0xa_aaaa_aaaa, 0xf_0f0f_0f0f, 0x1_2345_6789] { for s in 0..36 { l.push(m >> s); } } l.retain(|&x| x >= 0 && x < 1 << 36); l.sort(); l.dedup(); l.iter().map(|&x| x as u64).collect() };
    let n = ch.pick(&l);
    let bs = ch.pick(&[1usize, 15, 16, 192, 256, 4096, 4608, 32768, 65535]);
    if !variable && n >= 1 << 31 { judge(ch, &tiny(false, varint(n, varint_len(n)), bs, 8), Exact::Yes)?; return Ok(()); }
    for len in varint_len(n)..=7 { judge(ch, &tiny(variable, varint(n, len), bs, 8), Exact::Yes)?; }
    ch.sample(|| format!("number {} block {} variable {}", n, bs, variable));
    Ok(())
}
pub fn t_dense(ch: &mut Ch) -> R {
    let variable = ch.flag();
    let hi = ch.choose(ch.t(1 << 9, 1 << 14)) as u64;
    let scale = ch.pick(&[1u64, 0x10001, 0x4_0003]);
    for lo in 0..256u64 {
        let n = ((hi << 8 | lo) * scale) & if variable { (1 << 36) - 1 } else { (1 << 31) - 1 };
        judge(ch, &tiny(variable, varint(n, varint_len(n)), 7, 8), Exact::Yes)?;
    }
    Ok(())
}
/// Streams through the stream reader: positions abut, whatever the entry point and order of calls.
pub fn t_streams(ch: &mut Ch) -> R {
    let variable = ch.flag();
    let bs = ch.pick(&[16usize, 17, 192, 576]);
    let start = ch.pick(&[0u64, 1, 5, 127, 128, 2047, 2048, 65535, 65536, (1 << 31) - 4]);
    let nfull = ch.range(0, 3);
    let last = ch.pick(&[0usize, 1, 3, 15, 16, 100]);
    let style = ch.choose(3);
    let last = if last > bs { 0 } else { last };
    let mut frs = vec![];
    let mut sizes = vec![bs; nfull];
    if last > 0 { sizes.push(last); }
    if variable && nfull > 0 { sizes[0] = 33.min(bs + 7); }
    for (i, &n) in sizes.iter().enumerate() { frs.push(Fr { chan: Chan::Ind(2), bps: 16, pcm: vec![wave(n, 16, 0, i), wave(n, 16, 1, i)], subs: vec![sub(Kind::Fixed(1.min(n), res0()))] }); }
    let mut f = head(&Info { minb: if variable { 16 } else { bs as u16 }, ..Info::new(bs as u16, 2, 16, 0) }, &[]);
    let mut t = if variable { start } else { start * bs as u64 };
    let mut want = vec![];
    for (i, fr) in frs.iter().enumerate() {
        let n = fr.pcm[0].len();
        f.extend(quick_frame(fr.chan, fr.bps, variable, if variable { t } else { start + i as u64 }, &fr.pcm, &fr.subs).unwrap());
        want.push((t, n as u32));
        t += n as u64;
    }
    let mut rd = FlacReader::new(&f[..]).map_err(|e| Viol { msg: format!("{:?}", e), bytes: f.clone(), fingerprint: String::new() })?;
    let got = nopanic(&f, || {
        let mut v = vec![];
        match style {
            0 => { let mut b = rd.blocks(); while let Ok(Some(x)) = b.read_next_or_eof(vec![]) { v.push((x.time(), x.duration())); } }
            // a new frame reader for every block
            1 => { while let Ok(Some(x)) = rd.blocks().read_next_or_eof(vec![]) { v.push((x.time(), x.duration())); } }
            // the first block is consumed as samples
            _ => { if nfull > 0 { { let mut s = rd.samples(); for _ in 0..3 { s.next(); } } v.push(want[0]); } while let Ok(Some(x)) = rd.blocks().read_next_or_eof(vec![]) { v.push((x.time(), x.duration())); } }
        }
        v
    })?;
    ch.exec(!want.is_empty());
    ch.state(mix(hash_bytes(0, &f), style as u64));
    if got != want { return violb(format!("fixed {} block size {}: positions {:?}, expected {:?}", !variable, bs, got, want), &f); }
    ch.sample(|| format!("variable {} block {} start {}: {:?}", variable, bs, start, want));
    Ok(())
}
/// A bare frame reader that starts with a full block.
pub fn t_bare(ch: &mut Ch) -> R {
    let bs = ch.pick(&[16usize, 100, 192, 256, 4096]);
    let code = ch.pick(&bs_codes(bs));
    let start = ch.pick(&[0u64, 1, 9, 200, 70000, (1 << 31) - 6]);
    let nf = ch.range(1, 4);
    let last = ch.pick(&[1usize, 15, 16, 0]);
    let mut f = vec![];
    let mut want = vec![];
    for i in 0..nf as u64 { let mut h = Hdr::new(bs, Chan::Ind(1), 8, false, start + i); h.bs_code = code; f.extend(frame(&h, Chan::Ind(1), 8, &[vec![3; bs]], &[sub(Kind::Constant)]).unwrap()); want.push((start + i) * bs as u64); }
    if last > 0 { f.extend(quick_frame(Chan::Ind(1), 8, false, start + nf as u64, &[vec![4; last]], &[sub(Kind::Constant)]).unwrap()); want.push((start + nf as u64) * bs as u64); }
    let mut rd = FrameReader::new(SliceRb::new(&f));
    let got = nopanic(&f, || { let mut v = vec![]; while let Ok(Some(x)) = rd.read_next_or_eof(vec![]) { v.push(x.time()); } v })?;
    ch.exec(true);
    ch.state(hash_bytes(0, &f));
    if got != want { return violb(format!("block size {} from frame {}: positions {:?}, expected {:?}", bs, start, got, want), &f); }
    ch.sample(|| format!("block {} start {} {:?}", bs, start, want));
    Ok(())
}
/// Every block size: frame number times block size.
pub fn t_product(ch: &mut Ch) -> R {
    let step = ch.t(7, 1);
    let bs = (1 + ch.choose(65535 / step) * step).min(65535);
    for n in [1u64, (1 << 31) - 1] { judge(ch, &tiny(false, varint(n, varint_len(n)), bs, 8), Exact::Yes)?; }
    Ok(())
}
pub fn c09() -> Prop {
    Prop { id: "C09", level: "model_checking",
        rule: "a case is a frame or stream with coded numbers; the reported position is compared with the reference value, and positions within a stream must abut. Distinct: bytes",
        assumptions: &["in a fixed-blocksize stream whose stream info does not fix the block size, a shorter last block read by a new frame reader has no defined position", "an over-long coding of a number may be accepted (with the right value) or rejected"],
        families: vec![
            fam!("numbers", "all numbers around every power of two and 4 bit patterns at 36 shifts, in every coded length, x 9 block sizes x 2 strategies", t_numbers),
            fam!("dense", "2^17 (quick) / 2^22 consecutive numbers x 3 scalings x 2 strategies", t_dense),
            fam!("streams", "fixed and variable streams x 4 block sizes x 10 starting numbers x 0..3 full blocks x 6 last blocks x 3 ways of reading", t_streams),
            fam!("bare", "a bare frame reader over 1..4 full blocks and a shorter last one, block size in every code", t_bare),
            fam!("product", "every (quick: every seventh) block size x frame numbers 1 and 2^31-1", t_product),
            fam!("pool", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus), each followed by a second frame: times and durations", p_pool::times),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features, numbers, strategies and sizes among them", p_twise::decode_pairs),
            fam!("long-runs", "70000 frames by blocks and mixed with samples", crate::p_hist::long_runs),
            fam!("number-triples", "all triples of some 60 coded numbers in one reader, 2 strategies, 3 runs of block sizes, block size known and not", crate::p_fill::number_triples),
        ] }
}
#[allow(dead_code)]
pub fn unused() { let _ = lattice(3); let _ = Rej::Eof; }
