//! What is not a frame where a frame should begin, and lookups that are not names.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_meta::tag_check;
use crate::p_real::NAMES;
use crate::p_client::trace;
use crate::src::*;
use claxon::frame::FrameReader;

fn good_frame(num: u64) -> Vec<u8> { quick_frame(Chan::Ind(1), 16, false, num, &[vec![5i64; 16]], &[Sub { kind: Kind::Constant, wasted: 0 }]).unwrap() }
/// Every three bytes where a frame begins that are not a sync code.
pub fn three_bytes(ch: &mut Ch) -> R {
    let first = ch.choose(256);
    let after = ch.flag();
    let cont = ch.choose(6);
    let f0 = good_frame(0);
    let mut d: Vec<u8> = if after { f0.clone() } else { vec![] };
    let at = d.len();
    let words = cont >= 3;
    d.extend([first as u8, 0]);
    if !words { d.push(0); }
    match cont % 3 { 0 => {} 1 => d.extend(good_frame(after as u64)), _ => d.extend(vec![0u8; 40]) }
    let mut buf: Vec<i32> = vec![];
    for second in 0..=255u8 {
        d[at + 1] = second;
        if first == 0xff && second >> 2 == 0x3e { continue; }
        for third in 0..=255u8 {
            if !words { d[at + 2] = third; } else if third > 0 { break; }
            let r = guard(|| {
                let mut fx = FrameReader::new(SliceRb::new(&d));
                let mut b = std::mem::take(&mut buf);
                if after { match fx.read_next_or_eof(b) { Ok(Some(x)) => b = x.into_buffer(), _ => return Some(1) } }
                match fx.read_next_or_eof(b) { Err(_) => None, Ok(None) => Some(3), Ok(Some(_)) => Some(4) }
            });
            match r {
                Ok(None) => {}
                Ok(Some(1)) => return violb("the frame in front was not decoded", &d),
                Ok(Some(3)) => return violb(format!("bytes {:02x} {:02x} {:02x} in place of a frame counted as the end", first, second, third), &d),
                Ok(Some(_)) => return violb(format!("bytes {:02x} {:02x} {:02x} in place of a frame were skipped", first, second, third), &d),
                Err(e) => return violb(format!("panic: {}", e), &d),
            }
        }
    }
    { let n = if words { 256 } else { 65536 }; ch.execs(n, n); }
    heartbeat();
    ch.state((first * 12 + after as usize * 6 + cont) as u64);
    ch.sample(|| format!("first byte {:02x}, {} continuation {}", first, if after { "behind a frame," } else { "" }, cont));
    Ok(())
}
const MAGIC: [&[u8]; 32] = [b"TAG", b"TAG+", b"ID3", b"3DI", b"APETAGEX", b"LYRICSBEGIN", b"LYRICS200", b"fLaC", b"OggS", b"RIFF", b"RIFX", b"FORM", b"MThd", b"wvpk", b"MAC ", b"TTA1", b"\xff\xfb\x90\x00", b"\x1f\x8b\x08", b"PK\x03\x04", b"\x0bFLAC", b"\x7fFLAC\x01\x00",
    b"\x00\x00\x00\x22", b"\x81\x00\x00\x00", b"\xff\xff\xff\xff", b"\r\n", b"\0", b"\0\0", b" ", b"\xff", b"A", b"ftyp", b"IDv2"];
/// Well-known things behind, between and in front of frames, of every length.
pub fn magics(ch: &mut Ch) -> R {
    let m = MAGIC[ch.choose(MAGIC.len())];
    let before = ch.choose(3);
    let fill = ch.pick(&[0u8, 0x20, 0x41, 0xff]);
    let mut lens: Vec<usize> = (m.len()..140).collect();
    lens.extend([227, 228, 255, 256, 257, 511, 512, 2047, 2048, 2049, 4096, 10_000]);
    for n in lens {
        for then in [false, true] {
            let mut d = vec![];
            for i in 0..before { d.extend(good_frame(i as u64)); }
            let mut j = m.to_vec();
            j.resize(n, fill);
            d.extend(&j);
            if then { d.extend(good_frame(before as u64)); }
            let mut fx = FrameReader::new(SliceRb::new(&d));
            let o = nopanic(&d, || drain(&mut fx, before + 1))?;
            ch.exec(true);
            let ok = o.len() == before + 1 && o[..before].iter().all(|x| matches!(x, Ob::Blk(_))) && matches!(o[before], Ob::Err(_));
            if !ok { return violb(format!("{} bytes that begin with {:?} behind {} frames, then {}: {}", n, String::from_utf8_lossy(m), before, if then { "a frame" } else { "the end" }, show(&o)), &d); }
        }
    }
    heartbeat();
    ch.state(mix(hash_bytes(1, m), (before * 256 + fill as usize) as u64));
    ch.sample(|| format!("{:?} behind {} frames", String::from_utf8_lossy(m), before));
    Ok(())
}
/// Lookups that resemble a name: every ASCII character inserted, or put in place of one, at every position; every cut, doubled and joined.
pub fn near_names(ch: &mut Ch) -> R {
    let n = NAMES[ch.choose(NAMES.len())];
    let c: Vec<char> = n.chars().collect();
    let mut needles: Vec<String> = vec![];
    for p in 0..=c.len() {
        for x in 0..128u8 {
            let x = x as char;
            let mut s = c.clone(); s.insert(p, x); needles.push(s.iter().collect());
            if p < c.len() { let mut s = c.clone(); s[p] = x; needles.push(s.iter().collect()); }
            // The rest left out for it: a pattern.
            let mut s = c[..p].to_vec(); s.push(x); needles.push(s.iter().collect());
            let mut s = c[p..].to_vec(); s.insert(0, x); needles.push(s.iter().collect());
        }
        for q in p..=c.len() { needles.push(c[p..q].iter().collect()); }
    }
    for (a, b) in [("^", "$"), ("/", "/"), ("\"", "\""), ("'", "'"), ("(", ")"), ("[", "]"), ("*", "*"), (" ", " "), ("", "=*"), ("", ".*"), ("(?i)", ""), ("", "\u{0}"), ("", "="), ("=", "")] { needles.push(format!("{}{}{}", a, n, b)); }
    needles.push(format!("{}{}", n, n));
    needles.push(format!("{},{}", n, n));
    needles.push(format!("{}|{}", n, n));
    let tags: Vec<(String, String)> = vec![(n.to_string(), "1".into()), (format!("{}1", n), "2".into()), ("".into(), "3".into()), ("*".into(), "4".into()), (n.to_ascii_lowercase(), "5".into()), (format!(" {}", n), "6".into())];
    tag_check(ch, &tags, &needles)?;
    heartbeat();
    ch.sample(|| format!("{} lookups that resemble {}", needles.len(), n));
    Ok(())
}
/// A stream after one that differs from it in one byte, and the other way around: neither leaves anything behind.
pub fn neighbours(ch: &mut Ch) -> R {
    let own: Vec<Vec<u8>> = comment_streams();
    let (c, z) = (corpus().len(), zoo().len());
    let i = ch.choose(own.len() + c + z);
    let good: &[u8] = if i < own.len() { &own[i] } else if i < own.len() + c { &corpus()[i - own.len()].bytes } else { &zoo()[i - own.len() - c].bytes };
    let mode = ch.choose(2);
    let n = good.len().min(ch.t(700, 3000));
    let want = nopanic(good, || trace(good, mode))?;
    if i >= own.len() { let b = if i < own.len() + c { &corpus()[i - own.len()] } else { &zoo()[i - own.len() - c] }; if want.meta != Ok(crate::common::meta_expect(b)) { return violb(format!("{}: {:?}", b.name, want.meta), good); } }
    let mut bad = good.to_vec();
    for p in 0..n {
        for k in 0..5 {
            let x = match k { 0 => good[p] ^ 1, 1 => good[p] ^ 0x80, 2 => good[p].wrapping_add(1), 3 => good[p].wrapping_sub(1), _ => 0 };
            if x == good[p] { continue; }
            bad[p] = x;
            let (a, g, b, h) = nopanic(&bad, || (trace(&bad[..], mode), trace(good, mode), trace(&bad[..], mode), trace(good, mode)))?;
            if g != want || h != want { return violb(format!("after the same stream with byte {} changed to {:02x}, it gave meta {:?} {} {:?}; before, {:?} {} {:?}", p, x, if g != want { &g.meta } else { &h.meta }, show(&g.obs), g.err, want.meta, show(&want.obs), want.err), good); }
            if a != b { return violb(format!("byte {} changed to {:02x}: first meta {:?} {} {:?}; after the intact stream {:?} {} {:?}", p, x, a.meta, show(&a.obs), a.err, b.meta, show(&b.obs), b.err), &bad); }
        }
        bad[p] = good[p];
        if p % 32 == 0 { heartbeat(); }
    }
    ch.execs(n as u64 * 4, n as u64 * 4);
    ch.steps(n as u64 * 16);
    ch.state((i * 2 + mode) as u64);
    ch.sample(|| format!("stream {} (mode {}) before and after each of about {} variants that differ in a byte", i, mode, n * 4));
    Ok(())
}
fn comment_streams() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for vendor in ["", "v", "reference libFLAC 1.3.2 20170101", "some vendor string, rather long, longer than thirty-two bytes in any case"] {
        for cs in [&[][..], &[&b"a=b"[..]], &[&b"TITLE=Something"[..], b"ARTIST=Somebody Else"], &[&b"a="[..], b"b=c", b"DESCRIPTION=A text that is a little longer than the others are", b"d=\xe2\x82\xac"]] {
            let mut b = head(&Info::new(16, 1, 16, 32), &[(4, vorbis(vendor.as_bytes(), cs))]);
            b.extend(good_frame(0));
            b.extend(good_frame(1));
            v.push(b);
        }
    }
    v
}
/// Every lead byte with every second byte, and the ends of the ranges of the third and fourth, in the vendor string and in a value.
pub fn utf8_tails(ch: &mut Ch) -> R {
    const T: [u8; 11] = [0x00, 0x3d, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    let lead = ch.range(0x80, 0xff) as u8;
    let place = ch.choose(3);
    let n = ch.range(2, 4) as usize;
    let (body, at) = match place {
        0 => (vorbis(&vec![b'x'; n], &[b"a=b"]), 4),
        1 => { let mut c = b"a=".to_vec(); c.extend(vec![b'x'; n]); (vorbis(b"v", &[&c]), 15) }
        _ => { let mut c = b"a=y".to_vec(); c.extend(vec![b'x'; n]); c.extend(b"yyyyyyyyyyyyyyyyy"); (vorbis(b"v", &[&c]), 16) }
    };
    let mut body = body;
    assert!(body[at] == b'x' && body[at + n - 1] == b'x');
    let tails = if n == 2 { 1 } else if n == 3 { 256 } else { 121 };
    body[at] = lead;
    let mut k = 0u64;
    for second in 0..=255u8 {
        body[at + 1] = second;
        for t in 0..tails {
            if n == 3 { body[at + 2] = t as u8; }
            if n == 4 { body[at + 2] = T[t / 11]; body[at + 3] = T[t % 11]; }
            let ok = std::str::from_utf8(&body[at..at + n]).is_ok();
            let got = guard(|| {
                let mut c = std::io::Cursor::new(&body[..]);
                match claxon::metadata::read_metadata_block(&mut c, 4, body.len() as u32) {
                    Ok(claxon::metadata::MetadataBlock::VorbisComment(v)) => if place == 0 { Some(v.vendor.as_bytes() == &body[4..4 + n]) } else { Some(v.comments.len() == 1 && v.comments[0].0.as_bytes() == &body[13..]) },
                    Ok(_) => Some(false),
                    Err(e) => if ec(&e) == E::Format { None } else { Some(false) },
                }
            });
            k += 1;
            match got {
                Ok(Some(true)) if ok => {}
                Ok(None) if !ok => {}
                Ok(g) => return violb(format!("{} bytes {} in the {}: {}, expected {}", n, hex(&body[at..at + n]), if place == 0 { "vendor string" } else { "value" }, match g { None => "rejected", Some(true) => "accepted", _ => "reported differently" }, if ok { "acceptance" } else { "rejection" }), &body),
                Err(e) => return violb(format!("panic: {}", e), &body),
            }
        }
    }
    ch.execs(k, k);
    heartbeat();
    ch.state((lead as usize * 9 + place * 3 + n - 2) as u64);
    ch.sample(|| format!("{} sequences of {} bytes that begin with {:02x}", k, n, lead));
    Ok(())
}
/// Blocking strategies that change within a stream: each header is judged on its own.
pub fn mixed(ch: &mut Ch) -> R {
    let n = ch.t(4, 6);
    let mut d = vec![];
    let mut want = vec![];
    for i in 0..n {
        let variable = ch.flag();
        let num = if variable { ch.pick(&[0u64, 16, 1 << 35]) } else { ch.pick(&[0u64, i as u64, 0x7fff_ffff]) };
        d.extend(quick_frame(Chan::Ind(1), 16, variable, num, &[vec![i as i64 + 5; 16]], &[Sub { kind: Kind::Constant, wasted: 0 }]).unwrap());
        want.push((i as i32 + 5, if variable { num } else { num * 16 }));
    }
    let mut fx = FrameReader::new(SliceRb::new(&d));
    let o = nopanic(&d, || drain(&mut fx, n + 1))?;
    ch.exec(true);
    let ok = o.len() == n + 1 && o[n] == Ob::End && o.iter().zip(&want).all(|(g, w)| matches!(g, Ob::Blk(b) if b.time == w.1 && b.ch == 1 && b.data == vec![w.0; 16]));
    ch.state(hash_bytes(3, &d));
    if !ok { return violb(format!("frames of both blocking strategies: {}, expected times {:?}", show(&o), want), &d); }
    ch.sample(|| format!("times {:?}", want));
    Ok(())
}
/// Bytes of every value next to the end of the internal buffer.
pub fn boundary_bytes(ch: &mut Ch) -> R {
    use claxon::input::{BufferedReader, ReadBytes};
    let c = cap();
    let pre = ch.choose(7);
    let stop = c as i64 + ch.range(0, 6) as i64 - 4;
    let op = ch.choose(10);
    let other = ch.pick(&[0u8, 0xff, 0x55]);
    let mut d: Vec<u8> = (0..3 * c).map(|i| (i % 249) as u8 + 1).collect();
    for x in 0..=255u8 {
        for q in -2i64..3 { d[(c as i64 + q) as usize] = if q == 0 { x } else { other }; }
        if pre == 6 { for i in 0..c { d[i] = x; } }
        let r = nopanic(&d[c - 4..c + 4], || -> Result<(), String> {
            let mut r = BufferedReader::new(&d[..]);
            let e = |e: std::io::Error| format!("{:?}", e);
            let s = stop as usize;
            let mut buf = vec![0x77u8; s];
            match pre {
                0 => r.skip(s as u32).map_err(e)?,
                1 => { r.read_u8().map_err(e)?; r.skip(s as u32 - 1).map_err(e)? }
                2 => { r.skip(100).map_err(e)?; r.skip(s as u32 - 100).map_err(e)? }
                3 => { r.read_into(&mut buf).map_err(e)?; if buf != d[..s] { return Err("bulk read differs".into()); } }
                4 => { r.skip(s as u32 / 2).map_err(e)?; let h = s - s / 2; r.read_into(&mut buf[..h]).map_err(e)?; if buf[..h] != d[s / 2..s] { return Err("second bulk read differs".into()); } }
                5 => { r.skip(s as u32 - 1).map_err(e)?; if r.read_u8().map_err(e)? != d[s - 1] { return Err("byte before differs".into()); } }
                _ => for i in 0..s { if r.read_u8().map_err(e)? != d[i] { return Err(format!("byte {} differs", i)); } }
            }
            let b = |i: usize| d[s + i] as u32;
            let (got, want, n) = match op {
                0 => (r.read_u8().map_err(e)? as u32, b(0), 1),
                1 => (r.read_u8_or_eof().map_err(e)?.map_or(999, |x| x as u32), b(0), 1),
                2 => (r.read_be_u16().map_err(e)? as u32, b(0) << 8 | b(1), 2),
                3 => (r.read_be_u16_or_eof().map_err(e)?.map_or(99999, |x| x as u32), b(0) << 8 | b(1), 2),
                4 => (r.read_be_u24().map_err(e)?, b(0) << 16 | b(1) << 8 | b(2), 3),
                5 => (r.read_be_u32().map_err(e)?, b(0) << 24 | b(1) << 16 | b(2) << 8 | b(3), 4),
                6 => (r.read_le_u32().map_err(e)?, b(3) << 24 | b(2) << 16 | b(1) << 8 | b(0), 4),
                7 => { let mut z = [9u8; 5]; r.read_into(&mut z).map_err(e)?; if z != d[s..s + 5] { return Err(format!("five bytes {:?}", z)); } (0, 0, 5) }
                8 => { r.skip(3).map_err(e)?; (0, 0, 3) }
                _ => { let mut z = vec![9u8; c + 9]; r.read_into(&mut z).map_err(e)?; if z != d[s..s + c + 9] { return Err("long bulk read differs".into()); } (0, 0, c + 9) }
            };
            if got != want { return Err(format!("read {} gave {:x}, expected {:x}", op, got, want)); }
            let next = r.read_u8().map_err(e)?;
            if next != d[s + n] { return Err(format!("after read {} the next byte is {:02x}, expected {:02x}", op, next, d[s + n])); }
            Ok(())
        })?;
        ch.exec(true);
        if let Err(m) = r { return violb(format!("{} bytes passed in way {}, value {:02x} at the end of the buffer: {}", stop, pre, x, m), &d[c - 8..c + 8]); }
    }
    ch.state(((pre * 7 + (stop - c as i64 + 4) as usize) * 10 + op) as u64);
    ch.sample(|| format!("way {} to {} from the buffer's end, then read {}: all values", pre, stop - c as i64, op));
    heartbeat();
    Ok(())
}
