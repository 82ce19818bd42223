//! C12..C16: metadata.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::fam;
use crate::p_more;
use crate::refdec::{self, MBlock, Rej};
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::io::Cursor;

/// A delivered block against the reference.
pub fn mb_same(got: &MetadataBlock, want: &MBlock) -> Result<(), String> {
    match (got, want) {
        (MetadataBlock::StreamInfo(a), MBlock::Info(b)) => if info_ob(a) == info_ref(b) { Ok(()) } else { Err(format!("stream info: got {:?}, expected {:?}", info_ob(a), info_ref(b))) },
        (MetadataBlock::Padding { length }, MBlock::Padding(l)) => if length == l { Ok(()) } else { Err(format!("padding length: got {}, expected {}", length, l)) },
        (MetadataBlock::Application { id, data }, MBlock::App(i, d)) => if id == i && data == d { Ok(()) } else { Err(format!("application block: got id {:x} {:?}, expected {:x} {:?}", id, &data[..data.len().min(20)], i, &d[..d.len().min(20)])) },
        (MetadataBlock::VorbisComment(a), MBlock::Vorbis { vendor, comments }) => {
            if a.vendor != *vendor { return Err(format!("vendor: got {:?}, expected {:?}", a.vendor, vendor)); }
            if a.comments != *comments { return Err(format!("comments: got {:?}, expected {:?}", a.comments, comments)); }
            Ok(())
        }
        // Blocks that are not interpreted may be reported as any of the uninterpreted variants
        // (the crate reports seek tables, cue sheets and pictures as padding for now).
        (MetadataBlock::Padding { .. } | MetadataBlock::SeekTable(_) | MetadataBlock::CueSheet | MetadataBlock::Picture, MBlock::Padding(_)) => Ok(()),
        (MetadataBlock::Reserved, MBlock::Reserved) => Ok(()),
        _ => Err(format!("wrong kind of block, expected {:?}", want)),
    }
}

// ------------------------------------------------------------------ C12

pub fn info_check(ch: &mut Ch, b: &[u8], nt: bool) -> R {
    let want = refdec::info(b);
    let mut file = b"fLaC".to_vec();
    file.extend(block(true, 0, b));
    file.extend([0xA5; 3]);
    let g = nopanic(&file, || FlacReader::new(&file[..]).map(|r| info_ob(&r.streaminfo())).map_err(|e| ec(&e)))?;
    match (&g, &want) {
        (Ok(a), Ok(w)) if *a == info_ref(w) => {}
        (Err(E::Format), Err(_)) => {}
        _ => return violb(format!("stream info gave {:?}, expected {:?}", g, want), &file),
    }
    let mut c = Cursor::new(&file[4..]);
    let m = nopanic(&file, || metadata::read_metadata_block_with_header(&mut c))?;
    match (&m, &want) {
        (Ok(m), Ok(w)) => { if let Err(e) = mb_same(m, &MBlock::Info(w.clone())) { return violb(e, &file); } if c.position() != 38 { return violb(format!("block function consumed {} bytes", c.position()), &file); } }
        (Err(e), Err(_)) if ec(e) == E::Format => {}
        _ => return violb(format!("block function disagrees: ok {}, expected {:?}", m.is_ok(), want), &file),
    }
    ch.execs(2, 2 * nt as u64);
    ch.state(hash_bytes(0, b));
    Ok(())
}
pub fn base_infos() -> Vec<Info> {
    vec![Info { minb: 4096, maxb: 4096, minf: 0x123456, maxf: 0xabcdef, rate: 44100, ch: 2, bps: 16, samples: 0x5_6789_abcd, md5: *b"\x01\x23\x45\x67\x89\xab\xcd\xef\xfe\xdc\xba\x98\x76\x54\x32\x10" },
         Info { minb: 16, maxb: 65535, minf: 0, maxf: 0, rate: 655350, ch: 8, bps: 32, samples: (1 << 36) - 1, md5: [0xff; 16] },
         Info { minb: 16, maxb: 16, minf: 7, maxf: 0, rate: 1, ch: 1, bps: 4, samples: 0, md5: [0; 16] }]
}
pub fn lat(bits: u32) -> Vec<u64> {
    let mut v = vec![];
    for i in 0..=bits { for d in -2i64..=2 { let x = (1i64 << i) + d; if x >= 0 && x < 1 << bits { v.push(x as u64); } } }
    for x in [0x55_5555_5555u64, 0xaa_aaaa_aaaa, 0x12_3456_789a, 0xfe_dcba_9876] { v.push(x & ((1 << bits) - 1)); }
    v.push(0);
    v.sort(); v.dedup();
    v
}
pub fn si_blocksizes(ch: &mut Ch) -> R {
    let l = lat(16);
    let a = if ch.flag() { ch.pick(&l) } else { ch.choose(256) as u64 * 257 };
    let other: Vec<u64> = if ch.quick() { l.clone() } else { (0..65536).collect() };
    for base in base_infos() { for &b in &other { info_check(ch, &Info { minb: a as u16, maxb: b as u16, ..base.clone() }.bytes(), true)?; } }
    ch.sample(|| format!("min block size {} with {} max block sizes", a, other.len()));
    Ok(())
}
pub fn si_framesizes(ch: &mut Ch) -> R {
    let l = lat(24);
    let a = ch.pick(&l);
    for base in base_infos() { for &b in &l { info_check(ch, &Info { minf: a as u32, maxf: b as u32, ..base.clone() }.bytes(), true)?; } }
    ch.sample(|| format!("min frame size {} with {} max frame sizes", a, l.len()));
    Ok(())
}
pub fn si_rate(ch: &mut Ch) -> R {
    let hi = ch.choose(1 << 10) as u32;
    let bi = ch.t(1, 3);
    for base in base_infos().into_iter().take(bi) { for lo in 0..1u32 << 10 { info_check(ch, &Info { rate: hi << 10 | lo, ..base.clone() }.bytes(), true)?; } }
    ch.sample(|| format!("sample rates {}..{}", hi << 10, (hi << 10) + 1023));
    Ok(())
}
pub fn si_chbps(ch: &mut Ch) -> R {
    let c = ch.range(1, 8) as u32;
    let b = ch.range(1, 32) as u32;
    for base in base_infos() { for s in lat(36) { for r in [1u32, 15, 16, 44100, 655350] { info_check(ch, &Info { ch: c, bps: b, samples: s, rate: r, ..base.clone() }.bytes(), true)?; } } }
    ch.sample(|| format!("{} channels, {} bits, all boundary sample counts", c, b));
    Ok(())
}
pub fn si_bits(ch: &mut Ch) -> R {
    let base = base_infos()[ch.choose(3)].bytes();
    let i = ch.choose(272);
    for j in i..272 {
        let mut b = base.clone();
        b[i / 8] ^= 128 >> (i % 8);
        if j != i { b[j / 8] ^= 128 >> (j % 8); }
        info_check(ch, &b, true)?;
        if !ch.quick() { for k in j + 1..272 { b[k / 8] ^= 128 >> (k % 8); info_check(ch, &b, true)?; b[k / 8] ^= 128 >> (k % 8); } heartbeat(); }
    }
    ch.sample(|| format!("bit {} and every other bit flipped", i));
    Ok(())
}
pub fn si_bytes(ch: &mut Ch) -> R {
    let base = base_infos()[ch.choose(3)].bytes();
    let i = ch.choose(33);
    let a = ch.choose(256);
    for c in 0..256usize {
        let mut b = base.clone();
        b[i] = a as u8; b[i + 1] = c as u8;
        info_check(ch, &b, true)?;
    }
    ch.sample(|| format!("bytes {},{} = {:#x},*", i, i + 1, a));
    Ok(())
}
pub fn si_length(ch: &mut Ch) -> R {
    let l = ch.pick(&(0..300u32).chain(lat(24).iter().map(|&x| x as u32)).collect::<Vec<_>>());
    let via = ch.choose(3);
    let mut body = base_infos()[0].bytes();
    body.resize((l as usize).max(34).min(1 << 16) + 60, 0);
    let r = match via {
        0 => { let mut c = Cursor::new(&body[..]); nopanic(&body, || metadata::read_metadata_block(&mut c, 0, l).map(|_| ()).map_err(|e| ec(&e)))? }
        1 => { let mut f = vec![0x80]; f.extend(&l.to_be_bytes()[1..]); f.extend(&body); nopanic(&f, || metadata::read_metadata_block_with_header(&mut Cursor::new(&f[..])).map(|_| ()).map_err(|e| ec(&e)))? }
        _ => { let mut f = b"fLaC\x80".to_vec(); f.extend(&l.to_be_bytes()[1..]); f.extend(&body); nopanic(&f, || FlacReader::new(&f[..]).map(|_| ()).map_err(|e| ec(&e)))? }
    };
    let want = if l == 34 { Ok(()) } else { Err(E::Format) };
    ch.exec(true);
    ch.state(mix(l as u64, via as u64));
    if r != want { return violb(format!("stream info block of declared length {} gave {:?}", l, r), &body[..body.len().min(64)]); }
    Ok(())
}
pub fn c12() -> Prop {
    Prop { id: "C12", level: "model_checking",
        rule: "a case is a 34-byte stream info (or declared length), read through FlacReader and the block function and compared field by field with the reference parser, including the verdict; distinct: block bytes",
        assumptions: &["fields are swept exhaustively one at a time or in pairs over boundary lattices; all 272-bit values cannot be enumerated"],
        families: vec![
            fam!("block-sizes", "min block size (lattice and every multiple of 257) x max block size (lattice; thorough: all 65536) x 3 bases", si_blocksizes),
            fam!("frame-sizes", "all pairs of the 24-bit lattice x 3 bases", si_framesizes),
            fam!("rate", "all 2^20 sample rates (thorough: on 3 bases)", si_rate),
            fam!("channels-bps-samples", "8 channel counts x 32 sample sizes x 36-bit lattice of sample counts x 5 rates x 3 bases", si_chbps),
            fam!("bits", "every 1 and 2 (thorough: 3) bit flips of 3 bases", si_bits),
            fam!("bytes", "every value of every 2 adjacent bytes on 3 bases", si_bytes),
            fam!("length", "declared lengths 0..299 and the 24-bit lattice, by 3 entry points", si_length),
        ] }
}

// ------------------------------------------------------------------ C13

/// `b` is the input from the start of the block's body; `len` its declared length; all `len` bytes are there unless b is shorter.
pub fn vc_check(ch: &mut Ch, len: u32, b: &[u8], via: usize) -> R {
    let want = refdec::mblock(4, len, b);
    let full = b.len() >= len as usize;
    let expect_err = |e: E, w: Rej| -> bool { if !full { true } else { match w { Rej::Unsup => e == E::Unsup, _ => e == E::Format } } };
    let bad = |g: &dyn std::fmt::Debug| -> R { violb(format!("comment block of declared length {} gave {:?}, expected {:?}", len, g, want), b) };
    if via & 1 == 0 {
        let mut c = Cursor::new(b);
        let m = nopanic(b, || metadata::read_metadata_block(&mut c, 4, len))?;
        match (&m, &want) {
            (Ok(m), Ok(w)) => { if let Err(e) = mb_same(m, w) { return violb(e, b); } if c.position() != len as u64 { return violb(format!("comment block of length {}: consumed {}", len, c.position()), b); } }
            (Err(e), Err(w)) => if !expect_err(ec(e), w.0) { return bad(&ec(e)); },
            (Ok(_), _) => return bad(&"acceptance"),
            (Err(e), _) => return bad(&ec(e)),
        }
        ch.exec(true);
    }
    if via & 2 == 0 && full {
        let mut f = b"fLaC".to_vec();
        f.extend(block(false, 0, &Info::new(4096, 2, 16, 0).bytes()));
        f.push(0x84);
        f.extend(&len.to_be_bytes()[1..]);
        f.extend(b);
        let g = nopanic(&f, || FlacReader::new(BlockSrc::new(&f)).map(|r| (r.vendor().map(|s| s.to_string()), r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>())).map_err(|e| ec(&e)))?;
        match (&g, &want) {
            (Ok((v, t)), Ok(MBlock::Vorbis { vendor, comments })) => {
                let w: Vec<(String, String)> = comments.iter().map(|(s, i)| (s[..*i].to_string(), s[i + 1..].to_string())).collect();
                if v.as_ref() != Some(vendor) || *t != w { return violb(format!("reader reports vendor {:?} tags {:?}, expected {:?} {:?}", v, t, vendor, w), &f); }
            }
            (Err(e), Err(w)) => if !expect_err(*e, w.0) { return bad(e); },
            _ => return bad(&g),
        }
        ch.exec(true);
    }
    ch.state(hash_bytes(len as u64, b));
    Ok(())
}
struct BlockSrc<'a>(&'a [u8]);
impl<'a> BlockSrc<'a> { fn new(b: &'a [u8]) -> BlockSrc<'a> { BlockSrc(b) } }
impl<'a> std::io::Read for BlockSrc<'a> { fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { let n = buf.len().min(self.0.len()).min(1500); buf[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }

const COMMENTS: [&[u8]; 18] = [b"", b"a=b", b"=v", b"a=", b"=", b"a=b=c", b"\xc3\xa9=x", b"a=\xc3\xa9", b"a=\xff", b"noeq", b"\x1f=x", b"\x7e=x", b" =x", b"}=x", b"ab\x7f=", b"x=\xed\xa0\x80", b"TITLE=Some longer value", b"a\x00=b"];
pub fn vc_struct(ch: &mut Ch) -> R {
    let vendor = ch.pick(&[&b""[..], b"v", b"vendor", b"\xff", b"\xc3\xa9"]);
    let n = ch.range(0, ch.t(2, 3));
    let cs: Vec<&[u8]> = (0..n).map(|_| ch.pick(&COMMENTS)).collect();
    let deltas: [i64; 12] = [1, -1, 2, -2, 3, 4, -4, 8, -8, 1000, 0x7fff_ffff, 0xffff_ffff];
    // One deviation: none, or a delta on the vendor length, count, one comment length, or the block length; or trailing bytes.
    let base = vorbis(vendor, &cs);
    let mut offs = vec![0usize, 4 + vendor.len()];
    let mut p = 8 + vendor.len();
    for c in &cs { offs.push(p); p += 4 + c.len(); }
    let what = ch.choose(1 + offs.len() + 2);
    let mut b = base.clone();
    let mut len = b.len() as i64;
    if what > 0 && what <= offs.len() {
        let o = offs[what - 1];
        let d = ch.pick(&deltas);
        let x = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]).wrapping_add(d as u32);
        b[o..o + 4].copy_from_slice(&x.to_le_bytes());
    } else if what == offs.len() + 1 {
        len += ch.pick(&deltas[..9]);
        if len < 0 { return Ok(()); }
    } else if what == offs.len() + 2 {
        let t = ch.pick(&[&b"\0"[..], b"\0\0\0\0", b"\0\0\0", b"\x01\0\0\0=", b"\0\0\0\0\0\0\0\0", b"abc=def"]);
        b.extend(t);
        len = b.len() as i64;
    }
    // What follows the block must not be touched.
    for tail in [&[0u8; 40][..], b"=\0\0\0\0\0\0\0=aaaaaaaaaaaaaaaaaaaaaaaaaaaa"] { let mut b = b.clone(); b.extend(tail); vc_check(ch, len as u32, &b, 0)?; }
    ch.sample(|| format!("vendor {:?} comments {:?} deviation {}", vendor, cs.iter().map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>(), what));
    Ok(())
}
pub fn vc_tokens(ch: &mut Ch) -> R {
    let toks: [&[u8]; 10] = [&[0, 0, 0, 0], &[1, 0, 0, 0], &[2, 0, 0, 0], &[3, 0, 0, 0], &[4, 0, 0, 0], &[9, 0, 0, 0], b"=", b"a", b"\xc3\xa9", b"\xff"];
    let n = ch.range(1, ch.t(5, 6));
    let mut b = vec![];
    for _ in 0..n { b.extend(ch.pick(&toks)); }
    for &last in &toks {
        let mut c = b.clone();
        c.extend(last);
        vc_check(ch, c.len() as u32, &c, 2)?;
    }
    ch.sample(|| format!("block body {} + each token", hex(&b)));
    Ok(())
}
pub fn vc_chars(ch: &mut Ch) -> R {
    let x = ch.choose(256) as u8;
    let place = ch.choose(8);
    for y in 0..=255u8 {
        let s = [x, y];
        let (v, c): (Vec<u8>, Vec<u8>) = match place {
            0 => (s.to_vec(), b"a=b".to_vec()),
            1 => (b"v".to_vec(), [b"a=".as_slice(), &s].concat()),
            2 => (b"v".to_vec(), [&s[..], b"=b"].concat()),
            3 => (b"v".to_vec(), [b"a", &s[..1], b"b", &s[1..], b"=b"].concat()),
            4 => (b"v".to_vec(), [b"a=", &s[..1], b"b", &s[1..]].concat()),
            5 => (b"v".to_vec(), s.to_vec()),
            6 => (b"v".to_vec(), [b"a=\xe2", &s[..]].concat()),
            _ => (b"\xf0\x9f".iter().chain(&s).cloned().collect(), b"a=\xed".iter().chain(&s).cloned().collect()),
        };
        let b = vorbis(&v, &[b"k=v", &c, b"", b"l=w"]);
        vc_check(ch, b.len() as u32, &b, 0)?;
    }
    ch.sample(|| format!("bytes {:#x},* at place {}", x, place));
    Ok(())
}
pub fn vc_utf8(ch: &mut Ch) -> R {
    let x = ch.choose(128) as u8 + 128;
    let y = ch.choose(256) as u8;
    for z in 0..=255u8 { for t in [&b""[..], b"\x80"] {
        let s = [&[x, y, z], t].concat();
        let b = vorbis(&s, &[b"k=v"]);
        vc_check(ch, b.len() as u32, &b, 2)?;
        let b = vorbis(b"", &[&[b"k=", &s[..]].concat()]);
        vc_check(ch, b.len() as u32, &b, 2)?;
    } }
    Ok(())
}
pub fn vc_bases() -> Vec<Vec<u8>> { vec![vorbis(b"vend", &[b"ARTIST=a", b"", b"t=b=c"]), vorbis(b"", &[]), vorbis(b"ab", &[b"=", b"x=y", b"k=\xc3\xa9z"])] }
pub fn vc_mutate(ch: &mut Ch) -> R {
    let bs = vc_bases();
    let base = &bs[ch.choose(3)];
    let i = ch.choose(base.len());
    let x = ch.choose(256) as u8;
    let mut b = base.clone();
    b[i] = x;
    b.extend([0; 16]);
    vc_check(ch, base.len() as u32, &b, 0)?;
    let vals: &[u8] = if ch.quick() { &[0, 1, 0x3d, 0xff] } else { &[0, 1, 2, 3, 4, 5, 7, 8, 0x3d, 0x61, 0x7e, 0x80, 0xc3, 0xff] };
    for j in i + 1..base.len() { for &y in vals { let o = b[j]; b[j] = y; vc_check(ch, base.len() as u32, &b, 2)?; b[j] = o; } }
    ch.sample(|| format!("byte {} = {:#x} and every second change", i, x));
    Ok(())
}
pub fn vc_lengths(ch: &mut Ch) -> R {
    // The same bytes under every declared length, and every truncation of the input.
    let bs = vc_bases();
    let bi = ch.choose(3);
    let n = bs[bi].len();
    let mut b = bs[bi].clone();
    b.extend([0; 40]);
    let l = ch.range(0, n + 30);
    let cut = ch.range(0, b.len());
    vc_check(ch, l as u32, &b[..cut], 0)
}
pub fn vc_long(ch: &mut Ch) -> R {
    let vl = ch.pick(&[0usize, 1, 5, 2000, 2030, 2035, 2040, 2041, 2042, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 4096, 70000]);
    let cl = ch.pick(&[1usize, 2, 3, 2000, 2047, 2048, 2049, 6000, 65535, 65536]);
    let n = ch.pick(&[0usize, 1, 2, 3, 400]);
    if n == 400 && cl > 3000 { return Ok(()); }
    let vendor: Vec<u8> = (0..vl).map(|i| b'a' + (i % 23) as u8).collect();
    let cs: Vec<Vec<u8>> = (0..n).map(|k| { let mut c = vec![b'x'; cl]; for (i, x) in c.iter_mut().enumerate() { *x = b'A' + ((i + k) % 26) as u8; } c[cl / 2] = b'='; c }).collect();
    let b = vorbis(&vendor, &cs.iter().map(|c| &c[..]).collect::<Vec<_>>());
    vc_check(ch, b.len() as u32, &b, 0)?;
    // and one byte wrong at the end
    let mut w = b.clone();
    w.push(0);
    vc_check(ch, w.len() as u32, &w, 0)?;
    vc_check(ch, b.len() as u32 - 1, &b, 0)?;
    ch.sample(|| format!("vendor of {} bytes, {} comments of {}", vl, n, cl));
    Ok(())
}
pub fn vc_many(ch: &mut Ch) -> R {
    // Every pattern of empty and non-empty comments, with every declared count around the true one.
    let n = ch.range(0, ch.t(9, 12));
    let mut cs: Vec<&[u8]> = vec![];
    for _ in 0..n { cs.push(if ch.flag() { b"" } else { b"k=v" }); }
    for d in -3i64..=4 {
        let mut b = vorbis(b"", &cs);
        let c = n as i64 + d;
        if c < 0 { continue; }
        b[4..8].copy_from_slice(&(c as u32).to_le_bytes());
        vc_check(ch, b.len() as u32, &b, 0)?;
        // an extra empty comment's worth of bytes
        b.extend([0; 4]);
        vc_check(ch, b.len() as u32, &b, 0)?;
    }
    ch.sample(|| format!("{} comments, empty pattern {:?}", n, cs.iter().map(|c| c.is_empty()).collect::<Vec<_>>()));
    Ok(())
}
pub fn c13() -> Prop {
    Prop { id: "C13", level: "model_checking",
        rule: "a case is a Vorbis comment block body with a declared length, read by the block function and by FlacReader; verdict, vendor, comments, separator and consumed length are compared with the reference parser; distinct: (length, bytes)",
        assumptions: &["the block bodies enumerated are built from boundary tokens; comment strings up to 64 KiB"],
        families: vec![
            fam!("structures", "5 vendors x up to 2 (quick) / 3 comments from a palette of 18 x one deviation (each length or count by 12 deltas, block length by 9, 6 kinds of excess data) x 2 contents behind the block", vc_struct),
            fam!("tokens", "all bodies of up to 6 (quick) / 7 tokens (6 length words, 4 byte strings)", vc_tokens),
            fam!("chars", "all byte pairs at 8 places in vendor, name and value", vc_chars),
            fam!("utf8", "all 3-byte sequences with a high first byte, alone and with a continuation, in vendor and value", vc_utf8, thorough),
            fam!("mutate", "every value of every byte of 3 blocks, with a second change at every later byte to 4 / 14 values", vc_mutate),
            fam!("lengths", "3 blocks under every declared length, truncated everywhere", vc_lengths),
            fam!("long", "vendor up to 70000 bytes x comments up to 65536 bytes x up to 400 of them, around the 2048-byte buffer boundary, with length off by one", vc_long),
            fam!("many", "all patterns of empty and non-empty comments up to 9/12 x declared counts -3..+4 x excess", vc_many),
            fam!("separators", "comments of all lengths up to 400 (1100) and interesting ones up to 70000 x the separator at every place x a second one at 3 places", p_more::separators),
            fam!("places", "16 byte sequences at every place of vendors, names and values of up to 72 (300) bytes", p_more::places),
            fam!("counts", "up to 140 (600) and interesting numbers of comments up to 5000 of 4 kinds, the count right or wrong", p_more::counts),
            fam!("far-places", "11 characters at 163 places up to 70000 in vendors, names and values x 4 lengths of what follows", crate::p_hist::far_places),
            fam!("many-comments", "42 numbers of comments up to 2^20, the count or a length right or wrong", crate::p_hist::many_comments),
            fam!("every-character", "every Unicode scalar value in names, values and vendor strings, first, last and alone", crate::p_iter::characters),
            fam!("equal-texts", "vendor string and up to 3 (4) comments over 7 related texts (equal, prefixes, other case, other end) of 13 sizes, vendor whole or half", crate::p_code::equal_texts),
            fam!("millions", "7 shapes of comment blocks about items of some 50 sizes from 2^16 up to 10 MiB", crate::p_code::millions),
            fam!("known-texts", "34 vendor strings x 64 names that real files use x 3 cases x 16 values", crate::p_real::known_texts),
            fam!("known-broken", "34 vendor strings x 64 names x some 120 defects: excess data, cuts, wrong counts and lengths, bad characters", crate::p_real::known_broken),
            fam!("utf8-tails", "every lead byte x every second byte x every third, or 11 x 11 third and fourth bytes, in the vendor string and at two places of a value", crate::p_junk::utf8_tails),
        ] }
}

// ------------------------------------------------------------------ C14

pub fn fold_ascii(s: &str) -> Vec<u32> { s.chars().map(|c| { let c = c as u32; if (0x41..=0x5a).contains(&c) { c + 32 } else { c } }).collect() }
pub fn tag_check(ch: &mut Ch, tags: &[(String, String)], needles: &[String]) -> R {
    let cs: Vec<Vec<u8>> = tags.iter().map(|(a, b)| format!("{}={}", a, b).into_bytes()).collect();
    let refs: Vec<&[u8]> = cs.iter().map(|c| &c[..]).collect();
    let b = head(&Info::new(4096, 2, 16, 0), &[(4, vorbis(b"v", &refs))]);
    let rd = match nopanic(&b, || FlacReader::new(&b[..]))? { Ok(r) => r, Err(e) => return violb(format!("construction failed: {:?}", e), &b) };
    // listing
    {
        let mut it = rd.tags();
        let mut n = 0;
        loop {
            let left = tags.len() - n;
            if it.size_hint() != (left, Some(left)) || it.len() != left { return violb(format!("after {} of {} tags the remaining count is {:?} / {}", n, tags.len(), it.size_hint(), it.len()), &b); }
            match it.next() {
                Some((a, v)) => { if n >= tags.len() || a != tags[n].0 || v != tags[n].1 { return violb(format!("tag {} is ({:?},{:?}), expected {:?}", n, a, v, tags.get(n)), &b); } n += 1; }
                None => { if n != tags.len() { return violb(format!("{} tags listed, expected {}", n, tags.len()), &b); } break; }
            }
        }
        if it.next().is_some() { return violb("tags continue after the end", &b); }
    }
    let raw: Vec<(String, usize)> = tags.iter().map(|(a, v)| (format!("{}={}", a, v), a.len())).collect();
    if !metadata::Tags::new(&raw).eq(tags.iter().map(|(a, b)| (&a[..], &b[..]))) { return violb("Tags over the raw comments differs", &b); }
    for nd in needles {
        let want: Vec<&str> = tags.iter().filter(|(a, _)| fold_ascii(a) == fold_ascii(nd)).map(|(_, v)| &v[..]).collect();
        let mut it = rd.get_tag(nd);
        let mut got: Vec<&str> = vec![];
        while let Some(x) = nopanic(&b, || it.next())? { got.push(x); if got.len() > tags.len() { break; } }
        if got != want { return violb(format!("looking up {:?} among {:?} gave {:?}, expected {:?}", nd, tags, got, want), &b); }
        if it.next().is_some() { return violb(format!("lookup of {:?} continues after its end", nd), &b); }
        let got2: Vec<&str> = nopanic(&b, || metadata::GetTag::new(&raw, nd).take(tags.len() + 1).collect())?;
        if got2 != want { return violb(format!("GetTag {:?} among {:?} gave {:?}, expected {:?}", nd, raw, got2, want), &b); }
        ch.exec(!want.is_empty() || tags.len() > 0);
    }
    ch.state(h(&tags));
    Ok(())
}
pub fn strs(alpha: &[&str], max: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut i = 0;
    while i < v.len() { if v[i].chars().count() < max { for a in alpha { let s = format!("{}{}", v[i], a); v.push(s); } } i += 1; }
    v
}
pub fn tag_lists(ch: &mut Ch) -> R {
    let names = strs(&["a", "A", "b", "@"], 2);
    let needles = strs(&["a", "A", "b", "B", "@", "`", "=", "\u{e9}"], 2);
    let n = ch.range(0, ch.t(2, 3));
    let tags: Vec<(String, String)> = (0..n).map(|i| { let a = ch.choose(names.len()); (names[a].clone(), format!("v{}", i)) }).collect();
    tag_check(ch, &tags, &needles)?;
    ch.sample(|| format!("{:?} with {} names", tags, needles.len()));
    Ok(())
}
pub fn tag_chars(ch: &mut Ch) -> R {
    let c = (0x20u8..=0x7d).filter(|&c| c != b'=').collect::<Vec<_>>();
    let c = ch.pick(&c) as char;
    let form = ch.choose(4);
    let mk = |x: &str| match form { 0 => x.to_string(), 1 => format!("{}b", x), 2 => format!("b{}", x), _ => format!("TI{}LE", x) };
    let mut needles: Vec<String> = (0..0x180u32).chain([0x212a, 0x17f, 0x130, 0x131, 0x410, 0x430, 0xff21, 0xff41, 0x10400, 0x1f600]).filter_map(char::from_u32).map(|x| mk(&x.to_string())).collect();
    needles.push(mk("")); needles.push(mk(&format!("{}{}", c, c))); needles.push(String::new());
    tag_check(ch, &[(mk(&c.to_string()), "x=y".into()), ("other".into(), "z".into()), (mk(&c.to_string()), String::new())], &needles)?;
    ch.sample(|| format!("name {:?} with every character up to U+017F in its place", mk(&c.to_string())));
    Ok(())
}
pub fn tag_dups(ch: &mut Ch) -> R {
    // All patterns of matching (3 case variants) and other names up to length 8.
    let n = ch.range(0, ch.t(6, 8));
    let opts = ["Artist", "ARTIST", "Artis", "Artists", "artist", ""];
    let tags: Vec<(String, String)> = (0..n).map(|i| (opts[ch.choose(ch.t(4, 5))].to_string(), if i == 2 { String::new() } else { format!("{}=", i) })).collect();
    tag_check(ch, &tags, &["artist".into(), "ARTISTS".into(), "artis".into(), "".into(), "art\u{131}st".into(), "artist=".into(), "Artist=0".into()])?;
    ch.sample(|| format!("{:?}", tags));
    Ok(())
}
pub fn tag_interleave(ch: &mut Ch) -> R {
    // Several iterators over the same tags at once do not affect each other.
    let tags: Vec<(String, String)> = [("A", "0"), ("b", "1"), ("a", "2"), ("B", "3"), ("a", "")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let cs: Vec<String> = tags.iter().map(|(a, b)| format!("{}={}", a, b)).collect();
    let b = head(&Info::new(4096, 2, 16, 0), &[(4, vorbis(b"v", &cs.iter().map(|c| c.as_bytes()).collect::<Vec<_>>()))]);
    let rd = FlacReader::new(&b[..]).map_err(|e| Viol { msg: format!("{:?}", e), bytes: b.clone(), fingerprint: String::new() })?;
    let (mut t1, mut t2, mut g1, mut g2) = (rd.tags(), rd.tags(), rd.get_tag("a"), rd.get_tag("B"));
    let (mut i1, mut i2, mut j1, mut j2) = (0, 0, 0, 0);
    let (w1, w2) = (["0", "2", ""], ["1", "3"]);
    for _ in 0..ch.t(8, 10) {
        let ok = match ch.choose(4) {
            0 => { i1 += 1; t1.next().map(|x| x.1.to_string()) == tags.get(i1 - 1).map(|x| x.1.clone()) }
            1 => { i2 += 1; t2.next().map(|x| x.1.to_string()) == tags.get(i2 - 1).map(|x| x.1.clone()) }
            2 => { j1 += 1; g1.next() == w1.get(j1 - 1).copied() }
            _ => { j2 += 1; g2.next() == w2.get(j2 - 1).copied() }
        };
        if !ok { return violb("interleaved tag iterators disagree with the list", &b); }
    }
    ch.exec(true);
    ch.state(h(&(i1, i2, j1, j2)));
    Ok(())
}
pub fn tag_none(ch: &mut Ch) -> R {
    let kind = ch.choose(3);
    let blocks = match kind { 0 => vec![], 1 => vec![(1u8, vec![0; 3])], _ => vec![(4, vorbis(b"v", &[]))] };
    let b = head(&Info::new(4096, 2, 16, 0), &blocks);
    let rd = FlacReader::new(&b[..]).map_err(|e| Viol { msg: format!("{:?}", e), bytes: b.clone(), fingerprint: String::new() })?;
    ch.exec(true);
    if rd.tags().next().is_some() || rd.tags().len() != 0 || rd.get_tag("a").next().is_some() || rd.get_tag("").next().is_some() || rd.vendor() != if kind == 2 { Some("v") } else { None } { return violb("tags or vendor out of nothing", &b); }
    ch.state(kind as u64);
    Ok(())
}
pub fn c14() -> Prop {
    Prop { id: "C14", level: "model_checking",
        rule: "a case is a tag list and a lookup name; the lookup through the reader and through GetTag is compared with a filter over the list with an independent ASCII fold; the listing is compared step by step with its exact remaining count. Non-trivial: the list is not empty; distinct: tag lists",
        assumptions: &[],
        families: vec![
            fam!("lists", "all lists of up to 2 (quick) / 3 tags over all names up to 2 characters of {a,A,b,@} x all lookup names up to 2 characters of {a,A,b,B,@,`,=,e acute}", tag_lists),
            fam!("chars", "every name character x every lookup character up to U+017F and 10 further ones that fold to ASCII under other rules x 4 positions", tag_chars),
            fam!("duplicates", "all lists up to length 6/8 over 4/5 near-identical names x 7 lookups", tag_dups),
            fam!("interleaved", "all interleavings of 8/10 steps of two listings and two lookups", tag_interleave),
            fam!("none", "streams without tags", tag_none),
            fam!("repeats", "all lists of up to 6 (8) tags out of 5 (4) with equal names, equal values, both", p_more::repeats),
            fam!("long-names", "names of all lengths up to 80 (300) and interesting ones up to 2100 x names differing in one place in 4 ways", p_more::long_names),
            fam!("long-lists", "lists of all lengths up to 80 (400) and interesting ones up to 1100 (9000)", p_more::long_lists),
            fam!("texts", "names x values with multi-byte characters x some 200 lookups each: every part of the comments, repeated characters", crate::p_hist::tag_texts),
            fam!("many", "42 numbers of comments up to 2^20: listing and lookups", crate::p_hist::many_comments),
            fam!("iterator-calls", "6 tag lists x listing and 4 lookups: all sequences of 2 (3) of 21 calls and one of 13 ending ones, against a list", crate::p_iter::tag_calls),
            fam!("every-character", "lookups of every Unicode scalar value alone, twice and behind a K among 280 names", crate::p_iter::lookups),
            fam!("known-names", "all pairs of 64 names that real files use in 4 cases, looked up by all of them in 4 cases and by their variants", crate::p_real::known_names),
            fam!("near-names", "64 names that real files use, looked up with every ASCII character inserted, replaced or in place of the rest, at every position, and every part", crate::p_junk::near_names)
        ] }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Si, Pad0, Pad1, Pad7, App4, App9, Seek, Vc, VcE, Cue, Pic, Res7, Res126, Bad127, AppShort, VcBad, SiShort, SiBad }
pub const GOOD: [B; 12] = [B::Pad0, B::Pad1, B::Pad7, B::App4, B::App9, B::Seek, B::Vc, B::VcE, B::Cue, B::Pic, B::Res7, B::Res126];
pub const ALLB: [B; 18] = [B::Si, B::Pad0, B::Pad1, B::Pad7, B::App4, B::App9, B::Seek, B::Vc, B::VcE, B::Cue, B::Pic, B::Res7, B::Res126, B::Bad127, B::AppShort, B::VcBad, B::SiShort, B::SiBad];
pub fn body(b: B) -> (u8, Vec<u8>) {
    match b {
        B::Si => (0, Info::new(16, 2, 16, 99).bytes()), B::Pad0 => (1, vec![]), B::Pad1 => (1, vec![0]), B::Pad7 => (1, vec![0xff; 7]),
        B::App4 => (2, b"abcd".to_vec()), B::App9 => (2, b"abcdefghi".to_vec()), B::Seek => (3, vec![0x84; 18]), B::Vc => (4, vorbis(b"ve", &[b"A=b", b"", b"c=d"])), B::VcE => (4, vorbis(b"", &[])),
        B::Cue => (5, vec![0; 5]), B::Pic => (6, vec![0x80; 11]), B::Res7 => (7, vec![0; 2]), B::Res126 => (126, vec![0xff; 3]), B::Bad127 => (127, vec![0; 2]), B::AppShort => (2, vec![0; 3]),
        B::VcBad => (4, vorbis(b"ve", &[b"noeq"])), B::SiShort => (0, vec![0; 33]), B::SiBad => (0, { let mut v = Info::new(16, 2, 16, 0).bytes(); v[0] = 0; v[1] = 3; v }),
    }
}
pub fn audio() -> &'static [u8] {
    static A: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v = quick_frame(Chan::LS, 16, true, 0, &[wave(16, 16, 0, 1), wave(16, 16, 1, 1)], &[sub(Kind::Fixed(1, res0()))]).unwrap();
        v.extend(quick_frame(Chan::Ind(2), 16, true, 16, &[wave(16, 16, 0, 2), wave(16, 16, 1, 2)], &[sub(Kind::Verbatim)]).unwrap());
        v
    })
}
/// Reads a stream every way and compares with the reference. `exact`: the first error's class must agree too.
pub fn walk(ch: &mut Ch, f: &[u8], exact: bool, chunk: Chunk) -> R {
    let want = refdec::meta(f, false, true);
    let src = Src::new(f).chunk(chunk).scribble(0x80);
    let got = nopanic(f, || FlacReader::new(src).map(|mut r| { let m = meta_ob(&r); let o = drain(&mut r.blocks(), 100); (m, o) }).map_err(|e| ec(&e)))?;
    match (&got, &want) {
        (Ok((m, o)), Ok(w)) => {
            let wt: Vec<(String, String)> = w.vc.iter().flat_map(|v| v.1.iter().map(|(s, i)| (s[..*i].to_string(), s[i + 1..].to_string()))).collect();
            let wm = MetaOb { info: info_ref(&w.info), vendor: w.vc.as_ref().map(|v| v.0.clone()), tags: wt };
            if *m != wm { return violb(format!("metadata: got {:?}, expected {:?}", m, wm), f); }
            let (fr, e, _) = refdec::frames(&f[w.end..]);
            let mut wo: Vec<Ob> = fr.iter().map(|(_, f)| Ob::Blk(f.blk(f.number))).collect();
            wo.push(match e { None => Ob::End, Some(e) => Ob::Err(rej(e.0)) });
            let same = if exact { *o == wo } else { o.len() == wo.len() && o[..o.len() - 1] == wo[..wo.len() - 1] };
            if !same { return violb(format!("audio after the metadata: got {}, expected {}", show(o), show(&wo)), f); }
        }
        (Err(e), Err(w)) => if exact && *e != rej(w.0) { return violb(format!("construction failed with {:?}, expected {:?}", e, w), f); },
        _ => return violb(format!("construction: got {}, expected {:?}", match &got { Ok(_) => "a reader".to_string(), Err(e) => format!("{:?}", e) }, want.as_ref().map(|m| m.end)), f),
    }
    ch.exec(true);
    // block by block
    let data = &f[4.min(f.len())..];
    let mut cur = Cursor::new(data);
    let mut p = 0usize;
    let mut it = MetadataBlockReader::new(&mut cur);
    let mut ends = vec![];
    let mut n = 0;
    let mut err = false;
    loop {
        let hint = it.size_hint();
        let g = nopanic(f, || it.next())?;
        match g {
            None => { ends.push(hint); break; }
            Some(r) => {
                if err { return violb("the block iterator continues after an error", f); }
                if hint.0 > 1 || hint.1 == Some(0) { return violb(format!("block iterator hint {:?} before another item", hint), f); }
                if p > data.len() { return violb("a block beyond the end", f); }
                let (w, last, len) = refdec::mblock_h(&data[p..]);
                match (&r, &w) {
                    (Ok(m), Ok(w)) => { if let Err(e) = mb_same(m, w) { return violb(format!("block {}: {}", n, e), f); } }
                    (Err(e), Err(w)) => { if exact && ec(e) != rej(w.0) { return violb(format!("block {}: error {:?}, expected {:?}", n, ec(e), w), f); } err = true; }
                    (g, w) => return violb(format!("block {}: {} but expected {:?}", n, if g.is_ok() { "accepted" } else { "rejected" }, w), f),
                }
                p += len;
                n += 1;
                if !err && last { if nopanic(f, || it.next())?.is_some() { return violb("the block iterator continues after the last block", f); } break; }
            }
        }
    }
    for _ in 0..2 { if nopanic(f, || it.next())?.is_some() { return violb("the block iterator continues after its end", f); } }
    drop(it);
    if !err && cur.position() as usize != p { return violb(format!("after the blocks the cursor is at {} instead of {}", cur.position(), p), f); }
    ch.exec(true);
    ch.steps(n as u64);
    ch.state(hash_bytes(0, f));
    Ok(())
}
pub fn file(seq: &[(u8, Vec<u8>)], last: usize, au: &[u8]) -> Vec<u8> {
    let mut f = b"fLaC".to_vec();
    for (i, (t, b)) in seq.iter().enumerate() { f.extend(block(i == last, *t, b)); }
    f.extend(au);
    f
}
pub fn seqs(ch: &mut Ch) -> R {
    let n = ch.range(0, ch.t(3, 4));
    let first = ch.choose(3);
    let mut s = vec![];
    if first == 0 { s.push(B::Si); } else if first == 2 { s.push(ch.pick(&[B::SiShort, B::SiBad, B::Pad1])); }
    for _ in 0..n { s.push(ch.pick(&ALLB)); }
    if s.is_empty() { return Ok(()); }
    let bodies: Vec<_> = s.iter().map(|&b| body(b)).collect();
    let bad = s.iter().filter(|b| matches!(b, B::Bad127 | B::AppShort | B::VcBad | B::SiShort | B::SiBad)).count();
    walk(ch, &file(&bodies, s.len() - 1, audio()), bad <= 1, Chunk::Full)?;
    ch.sample(|| format!("{:?}", s));
    Ok(())
}
/// The last flag on any block, or on none.
pub fn lastflag(ch: &mut Ch) -> R {
    let n = ch.range(0, ch.t(3, 4));
    let mut s = vec![B::Si];
    for _ in 0..n { s.push(ch.pick(&[B::Pad7, B::App9, B::Vc, B::Pic, B::Res126, B::Pad0])); }
    let last = ch.choose(s.len() + 1);
    let with = ch.choose(3);
    let bodies: Vec<_> = s.iter().map(|&b| body(b)).collect();
    walk(ch, &file(&bodies, last, match with { 0 => audio(), 1 => &[], _ => &[0xff] }), false, Chunk::Full)?;
    ch.sample(|| format!("{:?} last flag on {}", s, last));
    Ok(())
}
/// Longer sequences of well-formed blocks of any type.
pub fn long(ch: &mut Ch) -> R {
    let n = ch.t(4, 5);
    let s: Vec<B> = (0..n).map(|_| ch.pick(&[B::Pad0, B::Pad7, B::App4, B::Seek, B::Vc, B::Cue, B::Res126])).collect();
    if s.iter().filter(|b| **b == B::Vc).count() > 2 { return Ok(()); }
    let mut bodies = vec![body(B::Si)];
    bodies.extend(s.iter().map(|&b| body(b)));
    let last = bodies.len() - 1;
    walk(ch, &file(&bodies, last, audio()), true, Chunk::Uniform(13))?;
    ch.sample(|| format!("{:?}", s));
    Ok(())
}
/// Every type with every small length and large ones, followed by a further block.
pub fn types(ch: &mut Ch) -> R {
    let ty = ch.choose(128) as u8;
    let n = if ch.flag() { ch.choose(64) } else { ch.pick(&[100usize, 255, 256, 257, 1000, 2000, 2004, 2005, 2006, 2047, 2048, 2049, 4096, 65535, 65536, 70001, 200_000]) };
    let fill = ch.pick(&[0u8, 0xff]);
    let app = if n >= 4 { 0x41 } else { fill };
    let mut b = vec![fill; n];
    if n > 0 { b[0] = app; }
    let f = file(&[body(B::Si), (ty, b.clone()), body(B::Pad1)], 2, audio());
    walk(ch, &f, false, Chunk::Full)?;
    // and directly
    let mut d = b.clone();
    d.extend([7; 5]);
    let mut c = Cursor::new(&d[..]);
    let g = nopanic(&d, || metadata::read_metadata_block(&mut c, ty, n as u32))?;
    let w = refdec::mblock(ty, n as u32, &d);
    match (&g, &w) {
        (Ok(m), Ok(w)) => { if let Err(e) = mb_same(m, w) { return violb(e, &d[..d.len().min(100)]); } if c.position() != n as u64 { return violb(format!("type {} length {}: consumed {}", ty, n, c.position()), &[]); } }
        (Err(_), Err(_)) => {}
        _ => return violb(format!("type {} length {}: ok {}, expected {:?}", ty, n, g.is_ok(), w), &d[..d.len().min(100)]),
    }
    ch.exec(true);
    ch.sample(|| format!("type {} length {}", ty, n));
    Ok(())
}
/// All alignments of small blocks to the internal buffer.
pub fn align(ch: &mut Ch) -> R {
    let pad = if ch.quick() { ch.range(1900, 2052) } else { ch.range(1, 4200) };
    let x = ch.pick(&GOOD);
    let y = ch.pick(&GOOD);
    if matches!((x, y), (B::Vc | B::VcE, B::Vc | B::VcE)) { return Ok(()); }
    let fill = ch.pick(&[0u8, 0xff]);
    let f = file(&[body(B::Si), (1, vec![fill; pad]), body(x), body(y)], 3, audio());
    walk(ch, &f, true, Chunk::Full)?;
    ch.sample(|| format!("{} bytes of padding, then {:?}, {:?}", pad, x, y));
    Ok(())
}
pub fn marker(ch: &mut Ch) -> R {
    let i = ch.choose(4);
    let x = ch.choose(256) as u8;
    let mut f = file(&[body(B::Si)], 0, audio());
    f[i] = x;
    walk_marker(ch, &f)?;
    for m in [b"ID3\x03", b"ID3\x04", b"OggS", b"CaLf", b"FLAC", b"flac", b"\0\0\0\0", b"RIFF"] { let mut g = f.clone(); g[..4].copy_from_slice(m); walk_marker(ch, &g)?; }
    for j in i + 1..4 { for y in [0u8, b'f', b'L', b'a', b'C', 0xff] { let mut g = f.clone(); g[j] = y; walk_marker(ch, &g)?; } }
    Ok(())
}
pub fn walk_marker(ch: &mut Ch, f: &[u8]) -> R {
    let g = nopanic(f, || FlacReader::new(f).map(|_| ()).map_err(|e| ec(&e)))?;
    let want = if &f[..4] == b"fLaC" { Ok(()) } else { Err(E::Format) };
    ch.exec(true);
    ch.state(hash_bytes(0, &f[..4]));
    if g != want { return violb(format!("marker {:?} gave {:?}", &f[..4], g), f); }
    Ok(())
}
pub fn c15() -> Prop {
    Prop { id: "C15", level: "model_checking",
        rule: "a case is a sequence of metadata blocks followed by audio; the reader's verdict, tags and the audio found behind, and each item and the position of the block iterator, are compared with the reference walk; distinct: stream bytes",
        assumptions: &["block types that the crate does not interpret may be reported as any uninterpreted kind"],
        families: vec![
            fam!("sequences", "all sequences of up to 4 (quick) / 5 blocks over 18 kinds of well- and ill-formed blocks", seqs),
            fam!("last-flag", "all sequences of up to 4/5 blocks over 6 kinds with the last flag on any block or none x 3 continuations", lastflag),
            fam!("long", "all sequences of 4/5 blocks over 7 kinds behind the stream info", long),
            fam!("types", "all 128 types x lengths 0..63 and 17 larger up to 200000 x 2 contents", types),
            fam!("align", "padding 1900..2052 (quick) / 1..4200 x all pairs of 12 kinds: every alignment to the internal buffer", align),
            fam!("marker", "all values of each marker byte, pairs, and other formats' markers", marker),
            fam!("lengths", "8 block types x all lengths up to 48 (300) and interesting ones up to 140000 (2^20) x last or not, followed by another block", p_more::lengths),
            fam!("large", "9 block types x some 70 lengths from 2^16 up to 2^24-1 x 2 contents, followed by comments, application data and audio", p_more::large),
            fam!("many-blocks", "30 to 2^20 (39 numbers) blocks of 8 types, empty or not, comments at 3 places, by iterator and under all options", crate::p_hist::many_blocks),
            fam!("iterator-calls", "6 block lists, whole and cut: all sequences of 2 (3) of 21 calls on the iterator and one of 13 ending ones; where the input stands afterwards", crate::p_iter::block_calls),
            fam!("far", "more than 4 GiB of metadata of 4 types, 3 ways (quick: one each)", crate::p_far::metadata),
            fam!("real-blocks", "some 130 blocks as real files have them (22 registered applications, seek tables, cue sheets, pictures, paddings, empty blocks), alone, last or not, and all pairs", crate::p_real::real),
            fam!("in-front", "24 kinds of data in front of the stream (ID3, byte order marks, other formats) x 15 lengths: rejected", crate::p_real::in_front)
        ] }
}

// ------------------------------------------------------------------ C16

pub fn opt_check(ch: &mut Ch, f: &[u8], mo: bool, vc: bool, chunk: usize) -> R {
    // Malformed or repeated comment blocks that nobody asked for may be accepted or rejected.
    let want = refdec::meta(f, mo, vc);
    let src = Src::new(f).chunk(Chunk::Uniform(chunk)).scribble(0);
    let st = src.stat();
    let got = nopanic(f, || FlacReader::new_ext(src, opts(mo, vc)))?;
    let used = st.delivered.get();
    ch.exec(true);
    ch.state(mix(hash_bytes(0, f), mo as u64 * 2 + vc as u64));
    let ctx = format!("metadata_only {} read_vorbis_comment {}", mo, vc);
    match (got, &want) {
        (Ok(mut r), Ok(w)) => {
            let wt: Vec<(String, String)> = w.vc.iter().flat_map(|v| v.1.iter().map(|(s, i)| (s[..*i].to_string(), s[i + 1..].to_string()))).collect();
            let wm = MetaOb { info: info_ref(&w.info), vendor: w.vc.as_ref().map(|v| v.0.clone()), tags: wt };
            let m = meta_ob(&r);
            if m != wm { return violb(format!("{}: got {:?}, expected {:?}", ctx, m, wm), f); }
            if chunk == 1 && used > w.end { return violb(format!("{}: construction read {} bytes although the wanted blocks end at {}", ctx, used, w.end), f); }
            if mo {
                if guard(|| { let mut x = r.blocks(); let _ = x.read_next_or_eof(vec![]); }).is_ok() { return violb(format!("{}: blocks() works on a metadata-only reader", ctx), f); }
                if guard(|| { let mut x = r.samples(); let _ = x.next(); }).is_ok() { return violb(format!("{}: samples() works on a metadata-only reader", ctx), f); }
                if meta_ob(&r) != wm { return violb(format!("{}: metadata changed", ctx), f); }
                if guard(move || { let mut x = r.into_samples(); let _ = x.next(); }).is_ok() { return violb(format!("{}: into_samples() works on a metadata-only reader", ctx), f); }
            } else {
                let (fr, e, _) = refdec::frames(&f[w.end..]);
                let mut wo: Vec<Ob> = fr.iter().map(|(_, f)| Ob::Blk(f.blk(f.number))).collect();
                wo.push(match e { None => Ob::End, Some(e) => Ob::Err(rej(e.0)) });
                let o = nopanic(f, || drain(&mut r.blocks(), 100))?;
                let ok = o.len() == wo.len() && o[..o.len() - 1] == wo[..wo.len() - 1] && (o.last() == wo.last() || matches!((o.last(), wo.last()), (Some(Ob::Err(_)), Some(Ob::Err(_)))));
                if !ok { return violb(format!("{}: audio {}, expected {}", ctx, show(&o), show(&wo)), f); }
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(w)) => {
            if !vc && !mo && matches!(w.0, Rej::Format) && refdec_unwanted_vc_only(f) { return Ok(()); }
            return violb(format!("{}: accepted, expected {:?}", ctx, w), f)
        }
        (Err(e), Ok(w)) => return violb(format!("{}: failed with {:?}, but the wanted blocks end at {} and are fine", ctx, ec(&e), w.end), f),
    }
    Ok(())
}
/// Is a comment block (malformed or second) the only thing wrong with the metadata?
pub fn refdec_unwanted_vc_only(f: &[u8]) -> bool {
    let mut p = 4;
    let mut first = true;
    loop {
        if p > f.len() { return false; }
        let (r, last, len) = refdec::mblock_h(&f[p..]);
        let ty = f.get(p).map_or(0, |x| x & 0x7f);
        match r {
            Err((Rej::Eof, _)) => return false,
            Err(_) if ty != 4 => return false,
            Ok(MBlock::Info(_)) if !first => return false,
            Ok(MBlock::Info(_)) => {}
            Ok(_) if first => return false,
            _ => {}
        }
        first = false;
        p += len;
        if last { return true; }
    }
}
const C16B: [B; 12] = [B::Pad1, B::Vc, B::VcE, B::VcBad, B::App9, B::Pic, B::Res7, B::Bad127, B::Si, B::AppShort, B::SiBad, B::Pad0];
pub fn opt_seqs(ch: &mut Ch) -> R {
    let mo = ch.flag();
    let vc = ch.flag();
    let n = ch.range(0, ch.t(3, 4));
    let mut s = vec![B::Si];
    for _ in 0..n { s.push(ch.pick(&C16B)); }
    let last = if ch.flag() { s.len() - 1 } else { 99 };
    let bodies: Vec<_> = s.iter().map(|&b| body(b)).collect();
    let f = file(&bodies, last, audio());
    opt_check(ch, &f, mo, vc, 1)?;
    if ch.flag() { opt_check(ch, &f, mo, vc, 4000)?; }
    ch.sample(|| format!("{:?} metadata_only {} read_vorbis_comment {} last flag {}", s, mo, vc, last != 99));
    Ok(())
}
pub fn opt_cuts(ch: &mut Ch) -> R {
    let mo = ch.flag();
    let vc = ch.flag();
    let n = ch.range(0, ch.t(2, 3));
    let mut s = vec![B::Si];
    for _ in 0..n { s.push(ch.pick(&[B::Pad7, B::Vc, B::VcE, B::App9, B::Seek, B::Res126])); }
    let last = s.len() - 1;
    let bodies: Vec<_> = s.iter().map(|&b| body(b)).collect();
    let f = file(&bodies, last, audio());
    for cut in 0..=f.len() { opt_check(ch, &f[..cut], mo, vc, 1)?; }
    ch.sample(|| format!("{:?} metadata_only {} read_vorbis_comment {} cut everywhere", s, mo, vc));
    Ok(())
}
/// A source that fails hard (instead of ending) right behind the wanted blocks.
pub fn opt_fault(ch: &mut Ch) -> R {
    let vc = ch.flag();
    let n = ch.range(0, 3);
    let mut s = vec![B::Si];
    for _ in 0..n { s.push(ch.pick(&[B::Pad7, B::Vc, B::App9, B::Pic])); }
    let last = s.len() - 1;
    let bodies: Vec<_> = s.iter().map(|&b| body(b)).collect();
    let f = file(&bodies, last, audio());
    let w = match refdec::meta(&f, true, vc) { Ok(w) => w, Err(_) => return Ok(()) };
    let src = Src::new(&f).chunk(Chunk::Uniform(1)).fault(Some(Fault { at: w.end, kind: std::io::ErrorKind::Other, persistent: true, os: false }));
    let r = nopanic(&f, || FlacReader::new_ext(src, opts(true, vc)).map(|r| meta_ob(&r)).map_err(|e| ec(&e)))?;
    ch.exec(true);
    ch.state(hash_bytes(vc as u64, &f));
    match r { Ok(m) if m.vendor == w.vc.as_ref().map(|v| v.0.clone()) => Ok(()), x => violb(format!("source failing behind the wanted blocks (at {}): {:?}", w.end, x), &f) }
}
/// The options through the file functions, and the defaults.
pub fn opt_open(ch: &mut Ch) -> R {
    let i = ch.choose(corpus().len());
    let b = &corpus()[i];
    let (mo, vc) = (ch.flag(), ch.flag());
    let path = std::env::temp_dir().join(format!("mc-c16-{}-{}-{}{}.flac", std::process::id(), i, mo as u8, vc as u8));
    std::fs::write(&path, &b.bytes).expect("scratch file");
    let r = guard(|| FlacReader::open_ext(&path, opts(mo, vc)).map(|mut r| (meta_ob(&r), if mo { vec![] } else { drain(&mut r.blocks(), 100) })).map_err(|e| ec(&e)));
    let d = guard(|| FlacReader::open(&path).map(|mut r| (meta_ob(&r), drain(&mut r.blocks(), 100))).map_err(|e| ec(&e)));
    let _ = std::fs::remove_file(&path);
    let mut w = meta_expect(b);
    let full = (w.clone(), expect_all(b));
    if !vc { w.vendor = None; w.tags = vec![]; }
    // In metadata-only mode the comments are still found: they come before the last block.
    ch.execs(2, 2);
    ch.state(mix(i as u64, mo as u64 * 2 + vc as u64));
    if r != Ok(Ok((w, if mo { vec![] } else { expect_all(b) }))) { return violb(format!("open_ext({}, {}) on {}: {:?}", mo, vc, b.name, r.map(|x| x.map(|y| y.0))), &b.bytes); }
    if d != Ok(Ok(full)) { return violb(format!("open on {}: {:?}", b.name, d.map(|x| x.map(|y| y.0))), &b.bytes); }
    let df = claxon::FlacReaderOptions::default();
    if df != opts(false, true) { return viol("default options"); }
    Ok(())
}
pub fn c16() -> Prop {
    Prop { id: "C16", level: "model_checking",
        rule: "a case is an option combination and a stream; what the constructor yields, how many bytes it takes from a one-byte source, whether audio is available and what it is, are compared with the reference walk under the same options; distinct: (stream bytes, options)",
        assumptions: &["a malformed or second comment block that was not asked for may be accepted or rejected"],
        families: vec![
            fam!("sequences", "4 option combinations x all sequences of up to 3 (quick) / 4 blocks over 12 kinds behind the stream info x last flag or none x one-byte and full reads", opt_seqs),
            fam!("cuts", "4 option combinations x all sequences of up to 2/3 blocks over 6 kinds x every truncation", opt_cuts),
            fam!("fault", "metadata-only x all sequences of up to 3 blocks over 4 kinds, source failing right behind the wanted blocks", opt_fault),
            fam!("open", "the corpus as files through open and open_ext under all options", opt_open),
            fam!("large", "3 shapes of comment blocks x interesting sizes up to 20000 (200000) x 6 following blocks x 3 preceding ones x 4 option combinations", p_more::options_large),
        ] }
}
#[allow(dead_code)]
pub fn unused(b: &[u8]) { let _ = FrameReader::new(BufferedReader::new(b)); }
