//! What real files hold: well-known names, vendor strings, applications and tables, tags in front of the stream; stream infos
//! that announce something else than the frames; streams that resemble each other; every value of a sample.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_code::vc_exact;
use crate::p_client::{three_ways, SLACK};
use crate::p_fault::cut_check;
use crate::p_frame::around;
use crate::p_meta::{tag_check, vc_check, walk, walk_marker, mb_same};
use crate::refdec;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata;
use claxon::FlacReader;
use std::io::Cursor;

// ------------------------------------------------------------------ names and vendor strings: C13, C14

pub const NAMES: [&str; 64] = ["TITLE", "VERSION", "ALBUM", "TRACKNUMBER", "ARTIST", "PERFORMER", "COPYRIGHT", "LICENSE", "ORGANIZATION", "DESCRIPTION", "GENRE", "DATE", "LOCATION", "CONTACT", "ISRC",
    "ALBUMARTIST", "ALBUM ARTIST", "ALBUM_ARTIST", "ALBUM-ARTIST", "TRACK", "TRACK NUMBER", "TRACKTOTAL", "TOTALTRACKS", "DISC", "DISCNUMBER", "DISCTOTAL", "TOTALDISCS", "YEAR", "COMMENT", "COMPOSER", "CONDUCTOR", "ENCODER", "ENCODED-BY",
    "ENCODED_BY", "METADATA_BLOCK_PICTURE", "COVERART", "COVERARTMIME", "CUESHEET", "LYRICS", "UNSYNCEDLYRICS", "REPLAYGAIN_TRACK_GAIN", "REPLAYGAIN_TRACK_PEAK", "REPLAYGAIN_ALBUM_GAIN", "REPLAYGAIN_ALBUM_PEAK",
    "REPLAYGAIN_REFERENCE_LOUDNESS", "R128_TRACK_GAIN", "WAVEFORMATEXTENSIBLE_CHANNEL_MASK", "MUSICBRAINZ_TRACKID", "MUSICBRAINZ_ALBUMID", "MusicBrainz Album Id", "CHAPTER001", "CHAPTER001NAME", "BPM", "UPC", "EAN", "LABEL", "PUBLISHER",
    "COMPILATION", "ARTISTS", "ARTISTSORT", "LANGUAGE", "vendor", "iTunNORM", "TITLE "];
const VENDORS: [&str; 34] = ["reference libFLAC 1.0.4 20020924", "reference libFLAC 1.1.0 20030126", "reference libFLAC 1.1.1 20041001", "reference libFLAC 1.1.2 20050205", "reference libFLAC 1.1.3 20061120", "reference libFLAC 1.1.4 20070213",
    "reference libFLAC 1.2.1 20070917", "reference libFLAC 1.2.1 win64 200807090", "reference libFLAC 1.3.0 20130526", "reference libFLAC 1.3.2 20170101", "reference libFLAC 1.4.3 20230623", "Lavf58.29.100", "Lavf53.21.1", "Lavc61.3.100 flac",
    "Xiph.Org libVorbis I 20020717", "Flake#0.11", "flacCL#2.1.5", "CUETools.FlaCuda#0.91", "", "\u{0}", "\u{0}v", "\u{0}v\u{0}w", "v\u{0}w\u{0}", "\u{feff}reference libFLAC", "\u{fffd}", "=", "a=b", "TITLE=x", " ", "\r\n", "fLaC", "\u{e9}\u{20ac}\u{1d11e}", "nginx", "e\u{301}"];
const VALUES: [&str; 16] = ["", "1", "1/12", "01", "2004-11-03", "-6.50 dB", "0.98876953", "AAAAAwAAAAppbWFnZS9qcGVn", "0x0003", "a=b", "line\r\nline", "\u{feff}x", "\u{0}", "  spaced  ", "\u{e9}\u{301}\u{1d11e}", "00000000-0000-0000-0000-000000000000"];
fn cased(s: &str, how: usize) -> String {
    match how { 0 => s.to_string(), 1 => s.to_ascii_lowercase(), 2 => s.to_ascii_uppercase(), _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect() }
}
pub fn known_names(ch: &mut Ch) -> R {
    let i = ch.choose(NAMES.len());
    let how = ch.choose(4);
    let mut needles: Vec<String> = vec![];
    for n in NAMES { for k in 0..4 { let x = cased(n, k); if !needles.contains(&x) { needles.push(x); } } }
    for n in [NAMES[i]] { for (a, b) in [(" ", ""), ("_", ""), ("-", ""), ("_", " "), (" ", "_"), ("S", ""), ("E", "3")] { needles.push(n.replace(a, b)); } needles.push(format!("{}S", n)); needles.push(n.trim().to_string()); needles.push(format!("{}=", n)); }
    for j in 0..NAMES.len() {
        let a = (cased(NAMES[i], how), VALUES[(i + j) % 16].to_string());
        let b = (cased(NAMES[j], (how + j) % 4), VALUES[(i * 3 + j + 1) % 16].to_string());
        tag_check(ch, &[a.clone(), b.clone(), a], &needles)?;
    }
    ch.sample(|| format!("{} with each of the other names", NAMES[i]));
    heartbeat();
    Ok(())
}
pub fn known_texts(ch: &mut Ch) -> R {
    let v = ch.choose(VENDORS.len());
    let how = ch.choose(3);
    for i in 0..NAMES.len() {
        for k in 0..VALUES.len() {
            let c = |n: &str, x: &str| format!("{}={}", cased(n, how), x).into_bytes();
            let cs = vec![c(NAMES[i], VALUES[k]), c(NAMES[(i + k) % 64], VALUES[(k + 1) % 16])];
            vc_exact(ch, VENDORS[v].as_bytes(), &cs, &|| format!("vendor {:?} and {} = {:?}", VENDORS[v], NAMES[i], VALUES[k]))?;
        }
    }
    ch.sample(|| format!("vendor {:?}", VENDORS[v]));
    Ok(())
}
/// The same vendor strings and names in blocks that are ill-formed in one place.
pub fn known_broken(ch: &mut Ch) -> R {
    let v = ch.choose(VENDORS.len());
    let i = ch.choose(NAMES.len());
    let good = vorbis(VENDORS[v].as_bytes(), &[format!("{}={}", NAMES[i], VALUES[i % 16]).as_bytes(), b"a=b"]);
    let vl = VENDORS[v].len();
    let mut bodies: Vec<Vec<u8>> = vec![good.clone()];
    for extra in [1usize, 2, 3, 4, 5, 7, 8, 15, 16, 17, 40] { for x in [0u8, 1, 0x20, 0xff] { let mut b = good.clone(); b.extend(vec![x; extra]); bodies.push(b); } }
    for cut in 1..=6usize { bodies.push(good[..good.len() - cut].to_vec()); }
    for d in [-2i64, -1, 1, 2, 256] {
        let mut b = good.clone(); let n = (2 + d) as u32; b[4 + vl..8 + vl].copy_from_slice(&n.to_le_bytes()); bodies.push(b);
        let mut b = good.clone(); let n = (vl as i64 + d) as u32; b[..4].copy_from_slice(&n.to_le_bytes()); bodies.push(b);
        let mut b = good.clone(); let l = u32::from_le_bytes([b[8 + vl], b[9 + vl], b[10 + vl], b[11 + vl]]); b[8 + vl..12 + vl].copy_from_slice(&((l as i64 + d) as u32).to_le_bytes()); bodies.push(b);
    }
    // A name with a character out of range, no separator, text that is not UTF-8, big endian lengths.
    let p = 12 + vl;
    for x in [0u8, 9, 0x1f, 0x7e, 0x7f, 0x80, 0xc3, 0xe9, 0xff] { for at in [p, p + 1, p + NAMES[i].len() - 1] { let mut b = good.clone(); b[at] = x; bodies.push(b); } }
    { let mut b = good.clone(); b[p + NAMES[i].len()] = b' '; bodies.push(b); }
    for x in [0x80u8, 0xc0, 0xe9, 0xff] { if vl > 0 { let mut b = good.clone(); b[4] = x; bodies.push(b); let mut b = good.clone(); b[3 + vl] = x; bodies.push(b); } let mut b = good.clone(); let n = b.len(); b[n - 1] = x; bodies.push(b); }
    { let mut b = good.clone(); b[..4].reverse(); bodies.push(b); }
    { let mut b = good.clone(); b[4 + vl..8 + vl].reverse(); bodies.push(b); }
    for b in &bodies { vc_check(ch, b.len() as u32, b, 0)?; }
    ch.sample(|| format!("vendor {:?} and name {}", VENDORS[v], NAMES[i]));
    Ok(())
}

// ------------------------------------------------------------------ real blocks: C15

const APPS: [&[u8; 4]; 22] = [b"riff", b"aiff", b"ATCH", b"BSOL", b"BUGS", b"Cues", b"Fica", b"Ftol", b"MOTB", b"MPSE", b"MuML", b"RIFF", b"SFFL", b"SONY", b"SQEZ", b"TtWv", b"UITS", b"imag", b"peem", b"qfst", b"tune", b"xbat"];
fn real_blocks() -> &'static [(String, u8, Vec<u8>)] {
    static A: std::sync::OnceLock<Vec<(String, u8, Vec<u8>)>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<(String, u8, Vec<u8>)> = vec![];
        for a in APPS { for data in [&b""[..], b"\0", b"RIFF\x24\x08\0\0WAVE", b"fmt \x10\0\0\0\x01\0\x02\0\x44\xac\0\0\x10\xb1\x02\0\x04\0\x10\0"] { v.push((format!("application {:?} with {} bytes", std::str::from_utf8(a).unwrap(), data.len()), 2, [&a[..], data].concat())); } }
        for id in [0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x20202020] { v.push((format!("application {:#x}", id), 2, [&id.to_be_bytes()[..], b"data"].concat())); }
        for n in [0usize, 1, 2, 5, 100] { let mut b = vec![]; for i in 0..n as u64 { b.extend((i * 441_000).to_be_bytes()); b.extend((i * 80_000).to_be_bytes()); b.extend(4096u16.to_be_bytes()); } v.push((format!("seek table of {}", n), 3, b.clone())); b.extend([0xffu8; 8]); b.extend([0u8; 10]); v.push((format!("seek table of {} and a placeholder", n), 3, b)); }
        let mut cue = vec![0u8; 396]; cue[..13].copy_from_slice(b"1234567890123"); cue[395] = 1; cue.extend([0u8; 36]); v.push(("cue sheet".into(), 5, cue)); v.push(("empty cue sheet".into(), 5, vec![]));
        for (mime, n) in [(&b"image/jpeg"[..], 0usize), (b"image/png", 300), (b"-->", 20), (b"", 2100)] { let mut b = 3u32.to_be_bytes().to_vec(); b.extend((mime.len() as u32).to_be_bytes()); b.extend(mime); b.extend(0u32.to_be_bytes()); for x in [500u32, 500, 24, 0, n as u32] { b.extend(x.to_be_bytes()); } b.extend((0..n).map(|i| (i * 7) as u8)); v.push((format!("picture {:?} of {}", mime, n), 6, b)); }
        for n in [0usize, 1, 3, 4, 18, 34, 4096, 8192] { v.push((format!("padding of {}", n), 1, vec![0; n])); }
        v.push(("padding with rubbish".into(), 1, b"fLaC\xff\xf8\xc9\x18".to_vec()));
        for ty in [7u8, 8, 9, 64, 126] { v.push((format!("empty block of type {}", ty), ty, vec![])); v.push((format!("block of type {}", ty), ty, b"fLaC".to_vec())); }
        for (n, c) in [(0usize, "TITLE=x"), (11, "METADATA_BLOCK_PICTURE=AAAA"), (5, "ALBUM ARTIST=y")] { v.push((format!("comments by {}", VENDORS[n]), 4, vorbis(VENDORS[n].as_bytes(), &[c.as_bytes(), b""]))); }
        v.push(("application block too short".into(), 2, b"rif".to_vec()));
        v.push(("empty application block".into(), 2, vec![]));
        v.push(("empty comment block".into(), 4, vec![]));
        v
    })
}
pub fn real(ch: &mut Ch) -> R {
    let rb = real_blocks();
    let i = ch.choose(rb.len());
    let si = (0u8, Info::new(16, 2, 16, 99).bytes());
    // alone, by either function
    for last in [false, true] {
        let mut b = block(last, rb[i].1, &rb[i].2);
        let n = b.len();
        b.extend(b"rest");
        for cursor in [true, false] {
            let (w, _, _) = refdec::mblock_h(&b);
            let mut c = Cursor::new(&b[..]);
            let g = nopanic(&b, || if cursor { metadata::read_metadata_block_with_header(&mut c) } else { metadata::read_metadata_block_with_header(&mut BufferedReader::new(&b[..])) })?;
            match (&g, &w) {
                (Ok(g), Ok(w)) => { if let Err(e) = mb_same(g, w) { return violb(format!("{}, last {}: {}", rb[i].0, last, e), &b); } if cursor && c.position() != n as u64 { return violb(format!("{}, last {}: consumed {} bytes of {}", rb[i].0, last, c.position(), n), &b); } }
                (Err(e), Err(w)) if ec(e) == rej(w.0) => {}
                _ => return violb(format!("{}, last {}: {:?} instead of {:?}", rb[i].0, last, g.as_ref().map(|_| ()).map_err(ec), w), &b),
            }
        }
        ch.execs(2, 2);
    }
    for j in 0..rb.len() {
        let seq = [si.clone(), (rb[i].1, rb[i].2.clone()), (rb[j].1, rb[j].2.clone())];
        walk(ch, &crate::p_meta::file(&seq, 2, crate::p_meta::audio()), true, Chunk::Full)?;
        if !ch.quick() { for k in (0..rb.len()).step_by(5) { let seq = [seq[0].clone(), seq[1].clone(), (rb[k].1, rb[k].2.clone()), seq[2].clone()]; walk(ch, &crate::p_meta::file(&seq, 3, crate::p_meta::audio()), false, Chunk::Uniform(999))?; } }
    }
    ch.sample(|| format!("{} before each of the others", rb[i].0));
    heartbeat();
    Ok(())
}
pub fn in_front(ch: &mut Ch) -> R {
    let base = { let seq = [(0u8, Info::new(16, 2, 16, 99).bytes()), (4, vorbis(b"v", &[b"a=b"]))]; crate::p_meta::file(&seq, 1, crate::p_meta::audio()) };
    let kind = ch.choose(24);
    let n = ch.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 10, 20, 127, 128, 300, 2048, 5000]);
    let id3 = |major: u8, flags: u8, size: usize| -> Vec<u8> { let mut v = b"ID3".to_vec(); v.extend([major, 0, flags]); for s in [21, 14, 7, 0] { v.push((size >> s & 0x7f) as u8); } v.extend(vec![b'x'; size]); v };
    let pre: Vec<u8> = match kind {
        0 => id3(2, 0, n), 1 => id3(3, 0, n), 2 => id3(4, 0, n), 3 => { let mut v = id3(4, 0x10, n); v.extend(b"3DI\x04\0\x10"); v.extend([0; 4]); v } 4 => { let mut v = id3(0, 0, n); v.extend(id3(3, 0, n)); v }
        5 => vec![0; n], 6 => vec![b' '; n], 7 => vec![0xff; n], 8 => [&b"\xef\xbb\xbf"[..], &vec![0; n]].concat(), 9 => [&b"OggS"[..], &vec![0; n]].concat(), 10 => [&b"\x7fFLAC\x01\0"[..], &vec![0; n]].concat(),
        11 => [&b"RIFF"[..], &vec![1; n]].concat(), 12 => [&b"TAG"[..], &vec![0; n]].concat(), 13 => [&b"APETAGEX"[..], &vec![0; n]].concat(), 14 => vec![b'f'; n], 15 => b"fLa".iter().cycle().take(n).cloned().collect(), 16 => vec![b'\n'; n], 17 => [&b"FLAC"[..], &vec![0; n]].concat(),
        18 => [&b"flaC"[..], &vec![0; n]].concat(), 19 => [&b"CaLf"[..], &vec![0; n]].concat(), 20 => { let mut v = b"ID3".to_vec(); v.extend(vec![0; n]); v } 21 => id3(3, 0x40, n), 22 => [&b"MThd"[..], &vec![2; n]].concat(), _ => [&b"\0\0\0 ftyp"[..], &vec![0; n]].concat(),
    };
    let mut f = pre.clone();
    f.extend(&base);
    if pre.is_empty() { return Ok(()); }
    walk_marker(ch, &f)?;
    for chunk in [1usize, 4, 10] {
        let g = nopanic(&f, || FlacReader::new(Src::new(&f).chunk(Chunk::Uniform(chunk))).map(|_| ()).map_err(|e| ec(&e)))?;
        if g != Err(E::Format) { return violb(format!("a stream behind {} bytes {:?}..: {:?}", pre.len(), &pre[..pre.len().min(12)], g), &f); }
        for o in 0..4 {
            let g = nopanic(&f, || FlacReader::new_ext(&f[..], opts(o & 1 != 0, o & 2 != 0)).map(|_| ()).map_err(|e| ec(&e)))?;
            if g != Err(E::Format) { return violb(format!("a stream behind {} bytes {:?}.., options {}: {:?}", pre.len(), &pre[..pre.len().min(12)], o, g), &f); }
        }
    }
    ch.execs(15, 15);
    ch.sample(|| format!("{} bytes of kind {} in front", pre.len(), kind));
    Ok(())
}

// ------------------------------------------------------------------ stream infos that announce something else: C01, C04, C08, C17

fn disagreeing(ch: &mut Ch) -> Built {
    let shape = ch.choose(5);
    let frs: Vec<Fr> = match shape {
        0 => vec![],
        1 => vec![Fr { chan: Chan::Ind(1), bps: 16, pcm: vec![wave(16, 16, 0, 1)], subs: vec![sub(Kind::Verbatim)] }],
        2 => (0..3).map(|i| Fr { chan: Chan::Ind(2), bps: 16, pcm: vec![wave(16, 16, 0, i), wave(16, 16, 1, i)], subs: vec![sub(Kind::Fixed(1, res0()))] }).collect(),
        3 => [5usize, 20, 1, 7].iter().map(|&n| Fr { chan: Chan::MS, bps: 24, pcm: vec![wave(n, 24, 0, 3), wave(n, 24, 1, 3)], subs: vec![sub(Kind::Verbatim)] }).collect(),
        _ => [(Chan::Ind(1), 8u32), (Chan::Ind(8), 12), (Chan::LS, 20), (Chan::Ind(3), 16)].iter().enumerate().map(|(i, &(c, b))| Fr { chan: c, bps: b, pcm: (0..c.n()).map(|k| wave(9 + i, b, k, 4)).collect(), subs: vec![sub(Kind::Constant), sub(Kind::Verbatim)].into_iter().skip(1).collect() }).collect(),
    };
    let total: u64 = frs.iter().map(|f| f.pcm[0].len() as u64).sum();
    let first = frs.first().map_or(0, |f| f.pcm[0].len() as u64);
    let nch = frs.first().map_or(1, |f| f.chan.n() as u32);
    let mut info = Info::new(16, nch, 16, total);
    info.minb = 16; info.maxb = 4096;
    info.samples = match ch.choose(10) { 0 => 0, 1 => total, 2 => first, 3 => total.saturating_sub(1), 4 => total + 1, 5 => 1, 6 => total * nch as u64, 7 => (1 << 36) - 1, 8 => total / 2, _ => 2 * total };
    match ch.choose(6) { 0 => {} 1 => { info.minb = 16; info.maxb = 16 } 2 => { info.minb = 4096; info.maxb = 4096 } 3 => { info.maxb = 65535 } 4 => { info.minb = 16; info.maxb = 17 } _ => { info.minb = 65535; info.maxb = 65535 } }
    info.ch = ch.pick(&[nch, 1, 8]);
    info.bps = ch.pick(&[16, 4, 32]);
    info.rate = ch.pick(&[44100, 1, 655350]);
    match ch.choose(3) { 0 => {} 1 => { info.minf = 1; info.maxf = 2 } _ => { info.minf = 0xff_ffff; info.maxf = 0xff_ffff } }
    build("announced", info, vec![], true, 0, frs)
}
pub fn announced_ways(ch: &mut Ch) -> R {
    let b = disagreeing(ch);
    three_ways(ch, &b)?;
    ch.sample(|| format!("{} frames, announced {:?}", b.blks.len(), b.info));
    Ok(())
}
pub fn announced_cuts(ch: &mut Ch) -> R {
    let b = disagreeing(ch);
    for cut in b.frame_offs[0]..=b.bytes.len() { for iface in 0..3 { cut_check(ch, &b, cut, iface, usize::MAX)?; } }
    ch.sample(|| format!("{} frames, announced {:?}, every cut", b.blks.len(), b.info));
    heartbeat();
    Ok(())
}
pub fn announced_memory(ch: &mut Ch) -> R {
    let b = disagreeing(ch);
    let audio: u64 = b.blks.iter().map(|x| x.data.len() as u64 * 4).sum();
    for k in 0..7 {
        let d = &b.bytes;
        let (n, m) = nopanic(d, || measure(|| match k {
            0 => { let mut r = FlacReader::new(&d[..]).unwrap(); let n = r.samples().count(); n }
            1 => FlacReader::new(&d[..]).unwrap().into_samples().count(),
            2 => { let mut r = FlacReader::new(&d[..]).unwrap(); let mut fr = r.blocks(); let mut buf = vec![]; let mut n = 0; while let Ok(Some(x)) = fr.read_next_or_eof(buf) { n += 1; buf = x.into_buffer(); } n }
            3 => { let r = FlacReader::new(&d[..]).unwrap(); let it = r.into_samples(); it.size_hint().0.min(1) }
            4 => { let mut r = FlacReader::new(&d[..]).unwrap(); for _ in 0..5 { drop(r.samples()); } 0 }
            5 => FlacReader::new_ext(&d[..], opts(true, true)).is_ok() as usize,
            _ => { let mut r = FlacReader::new(&d[..]).unwrap(); let n = r.samples().take(1).count(); n }
        }))?;
        if m.peak > audio + 16_384 + SLACK { return violb(format!("way {} of reading ({}): {} bytes allocated at the peak, the blocks need {}; announced {:?}", k, n, m.peak, audio, b.info), d); }
        // Beyond the reader itself, nothing is due before a frame has been read.
        if (k == 3 || k == 4) && m.peak > 16_384 + SLACK { return violb(format!("way {} of reading without reading a sample: {} bytes allocated; announced {:?}", k, m.peak, b.info), d); }
    }
    ch.execs(7, 7);
    ch.state(hash_bytes(3, &b.bytes));
    ch.sample(|| format!("{} frames, announced {:?}", b.blks.len(), b.info));
    Ok(())
}

// ------------------------------------------------------------------ skips through references: C19

pub fn far_references(ch: &mut Ch) -> R {
    let k = ch.pick(&[(1u32 << 16) - 1, 1 << 16, (1 << 16) + 3, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 5, (1 << 25) + 1, (1 << 26) - 3]);
    let depth = ch.choose(3);
    let reader = ch.choose(3);
    static D: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| (0..(1usize << 26) + 64).map(|i| (i ^ i >> 8 ^ i >> 16 ^ i >> 24) as u8).collect());
    let at = |i: usize| (i ^ i >> 8 ^ i >> 16 ^ i >> 24) as u8;
    fn go<R: ReadBytes>(mut r: R, k: u32) -> Option<(u8, u8, u16)> { let a = r.read_u8().ok()?; r.skip(k).ok()?; Some((a, r.read_u8().ok()?, r.read_be_u16().ok()?)) }
    fn deep<R: ReadBytes>(r: &mut R, k: u32, depth: usize) -> Option<(u8, u8, u16)> { let mut x = r; match depth { 0 => go(x, k), 1 => go(&mut x, k), _ => go(&mut &mut x, k) } }
    let got = nopanic(&[], || match reader { 0 => deep(&mut Cursor::new(&d[..]), k, depth), 1 => deep(&mut BufferedReader::new(&d[..]), k, depth), _ => deep(&mut SliceRb::new(d), k, depth) })?;
    let i = k as usize + 1;
    let want = Some((at(0), at(i), (at(i + 1) as u16) << 8 | at(i + 2) as u16));
    ch.exec(true);
    ch.state(mix(k as u64, (depth * 4 + reader) as u64));
    if got != want { return viol(format!("a skip of {} through {} references on reader {}: {:?} instead of {:?}", k, depth + 1, reader, got, want)); }
    ch.sample(|| format!("skip of {} through {} references", k, depth + 1));
    heartbeat();
    Ok(())
}

// ------------------------------------------------------------------ streams that resemble each other: C20

struct Twin { bytes: Vec<u8>, full: Full }
fn twins() -> &'static [(&'static str, Vec<Twin>)] {
    static A: std::sync::OnceLock<Vec<(&'static str, Vec<Twin>)>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let au = crate::p_meta::audio();
        let si = (0u8, Info::new(16, 2, 16, 99).bytes());
        let twin = |bytes: Vec<u8>| -> Twin {
            let m = refdec::meta(&bytes, false, true).expect("twin");
            let tags = m.vc.iter().flat_map(|v| v.1.iter().map(|(s, i)| (s[..*i].to_string(), s[i + 1..].to_string()))).collect();
            let (fr, e, _) = refdec::frames(&bytes[m.end..]);
            let mut obs: Vec<Ob> = fr.iter().map(|(_, f)| Ob::Blk(f.blk(f.number))).collect();
            obs.push(match e { None => Ob::End, Some(e) => Ob::Err(rej(e.0)) });
            Twin { full: Full { meta: Ok(MetaOb { info: info_ref(&m.info), vendor: m.vc.as_ref().map(|v| v.0.clone()), tags }), obs }, bytes }
        };
        let mut v = vec![];
        // comment blocks of the same length
        let ven = b"reference libFLAC 1.3.2 20170101";
        let ven2 = b"reference libFLAC 1.3.2 20170102";
        let com = |ven: &[u8], c: &[&[u8]]| twin(crate::p_meta::file(&[si.clone(), (4, vorbis(ven, c))], 1, au));
        v.push(("comments", vec![
            com(ven, &[b"ARTIST=someone", b"TITLE=first song"]), com(ven, &[b"ARTIST=someone", b"TITLE=other song"]), com(ven, &[b"ARTIST=nobody!", b"TITLE=first song"]), com(ven2, &[b"ARTIST=someone", b"TITLE=first song"]),
            com(ven, &[b"ARTISTS=omeone", b"TITLE=first song"]), com(ven, &[b"TITLE=first song", b"ARTIST=someone"]), com(ven, &[b"ARTIST=someone", b"TITLE=first son="]), com(ven, &[b"ARTIST=someon", b"TITLES=first song"]), com(ven, &[b"Artist=someone", b"TITLE=first song"])]));
        // stream infos that differ in one field
        let mut infos = vec![Info::new(16, 2, 16, 99)];
        for k in 0..8 { let mut i = Info::new(16, 2, 16, 99); match k { 0 => i.rate = 48000, 1 => i.samples = 98, 2 => i.md5[15] ^= 1, 3 => i.md5[0] ^= 1, 4 => i.ch = 1, 5 => i.bps = 8, 6 => { i.minf = 1 ; i.maxf = 9 } _ => { i.maxb = 17; } } infos.push(i); }
        v.push(("infos", infos.iter().map(|i| twin(crate::p_meta::file(&[(0, i.bytes())], 0, au))).collect()));
        // frames with one header
        let fr = |seed: usize, kind: Kind, kind2: Kind| { let mut d = quick_frame(Chan::Ind(2), 16, true, 7, &[wave(16, 16, 0, seed), wave(16, 16, 1, seed)], &[sub(kind)]).unwrap(); d.extend(quick_frame(Chan::Ind(2), 16, true, 23, &[wave(16, 16, 0, 9), wave(16, 16, 1, seed)], &[sub(kind2)]).unwrap()); twin(crate::p_meta::file(&[si.clone()], 0, &d)) };
        let l = |c: &[i32], s: u32| lpc(c, 8, s, res0());
        v.push(("frames", vec![fr(1, Kind::Verbatim, Kind::Verbatim), fr(2, Kind::Verbatim, Kind::Verbatim), fr(1, Kind::Fixed(2, res0()), Kind::Verbatim), fr(2, Kind::Fixed(2, res0()), Kind::Verbatim), fr(1, l(&[64, -7], 6), l(&[64, -7], 6)), fr(1, l(&[64, -7], 5), l(&[64, -7], 6)), fr(2, l(&[64, -8], 6), l(&[1, 2, 3], 4)), fr(3, Kind::Fixed(4, res0()), l(&[64, -7], 6)),
            fr(3, Kind::Fixed(4, res(true, 1, K::Auto)), Kind::Fixed(4, res(false, 1, K::Auto)))]));
        // the first frame damaged, cut or whole
        let whole = v[2].1[0].bytes.clone();
        let a0 = whole.len() - (whole.len() - refdec::meta(&whole, false, true).unwrap().end);
        let dam = |at: usize, x: u8| { let mut d = whole.clone(); d[at] ^= x; twin(d) };
        v.push(("damage", vec![twin(whole.clone()), dam(a0 + 9, 1), dam(a0 + 5, 1), dam(whole.len() - 1, 1), dam(a0 + 20, 0x80), twin(whole[..whole.len() - 1].to_vec()), twin(whole[..a0 + 30].to_vec()), twin(whole[..a0].to_vec())]));
        v
    })
}
pub fn resembling(ch: &mut Ch) -> R {
    let t = twins();
    let g = ch.choose(t.len());
    let (name, g) = (t[g].0, &t[g].1);
    let n = ch.t(3, 4);
    let seq: Vec<usize> = (0..n).map(|_| ch.choose(g.len())).collect();
    let mode = ch.choose(3);
    let mut held: Vec<FlacReader<&[u8]>> = vec![];
    for (i, &k) in seq.iter().enumerate() {
        let d = &g[k].bytes[..];
        let bad = |what: &dyn std::fmt::Debug| -> R { violb(format!("{}: stream {} of {:?} (mode {}) gave {:?}, expected {:?}", name, i, seq, mode, what, g[k].full), d) };
        match mode {
            0 => { let f = nopanic(d, || full(d))?; if f != g[k].full { return bad(&f); } }
            1 => {
                // All readers opened before any is used.
                let r = nopanic(d, || FlacReader::new(d))?;
                match r { Ok(r) => held.push(r), Err(e) => return bad(&e) }
            }
            _ => {
                let Full { meta, obs } = &g[k].full;
                let (m, s) = nopanic(d, || { let r = FlacReader::new(BlockSrc1(d)).unwrap(); let m = meta_ob(&r); (m, samples(&mut r.into_samples(), 10_000)) })?;
                let w: Vec<i32> = obs.iter().flat_map(|o| if let Ob::Blk(b) = o { inter(b) } else { vec![] }).collect();
                let e = match obs.last() { Some(Ob::Err(e)) => Err(*e), _ => Ok(()) };
                if Ok(&m) != meta.as_ref() || s.v != w || s.end != e { return bad(&(m, s)); }
            }
        }
    }
    for (r, &k) in held.iter_mut().zip(&seq) {
        let d = &g[k].bytes[..];
        let f = nopanic(d, || Full { meta: Ok(meta_ob(r)), obs: drain(&mut r.blocks(), 100) })?;
        if f != g[k].full { return violb(format!("{}: one of {:?}, all opened before any was read, gave {:?}, expected {:?}", name, seq, f, g[k].full), d); }
    }
    ch.execs(n as u64, n as u64);
    ch.state(mix(h(&seq), h(&name)));
    ch.sample(|| format!("{} {:?}, mode {}", name, seq, mode));
    Ok(())
}
struct BlockSrc1<'a>(&'a [u8]);
impl<'a> std::io::Read for BlockSrc1<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(61); std::io::Read::read(&mut self.0, &mut b[..n]) } }

// ------------------------------------------------------------------ pairs of headers: C10

const SR: [(u8, u16); 21] = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (12, 44), (12, 255), (13, 0), (13, 44100), (13, 65535), (14, 0), (14, 4410), (14, 65535)];
const BS: [(u8, u32); 12] = [(1, 0), (2, 0), (6, 0), (6, 15), (6, 191), (6, 255), (7, 0), (7, 15), (7, 191), (7, 4095), (8, 0), (12, 0)];
const CB: [(u8, u8); 30] = [(0, 1), (0, 2), (0, 4), (0, 5), (0, 6), (1, 1), (1, 2), (1, 4), (1, 5), (1, 6), (8, 1), (8, 2), (8, 4), (8, 5), (8, 6), (9, 1), (9, 4), (9, 6), (10, 1), (10, 2), (10, 4), (10, 5), (10, 6), (2, 4), (3, 4), (4, 6), (5, 1), (6, 4), (7, 4), (7, 6)];
pub fn header_pairs(ch: &mut Ch) -> R {
    let what = ch.choose(3);
    let mk = |i: usize, num: u64, variable: bool| -> Vec<u8> {
        let (s, b, c) = match what { 0 => (SR[i % 21], BS[3], CB[(i / 21) % 30]), 1 => (SR[(i / 12) % 21], BS[i % 12], CB[2]), _ => (SR[7], BS[(i / 30) % 12], CB[i % 30]) };
        around(&Hdr { b0: 0xff, b1: 0xf8 | variable as u8, bs_code: b.0, sr_code: s.0, ch_code: c.0, bps_code: c.1, res: 0, num: varint(num, varint_len(num)), bs_ext: b.1, sr_ext: s.1 }.nocrc(), None)
    };
    let size = [42usize, 24, 60][what];
    let i = ch.choose(size);
    let variable = ch.flag();
    for j in 0..size {
        for k in [i, j, (i + j) % size] {
            let mut d = mk(i, 0, variable);
            d.extend(mk(j, if variable { 4096 } else { 1 }, variable));
            d.extend(mk(k, if variable { 300_000 } else { 2 }, variable));
            let (fr, e, _) = refdec::frames(&d);
            if e.is_some() { panic!("header pairs: {:?}", e); }
            let mut fx = FrameReader::new(SliceRb::new(&d));
            let o = nopanic(&d, || drain(&mut fx, 10))?;
            ch.exec(true);
            let good = o.len() == 4 && o[3] == Ob::End && o.iter().zip(&fr).all(|(g, (_, w))| matches!(g, Ob::Blk(b) if { let x = w.blk(b.time); (!variable || b.time == w.number) && *b == x }));
            if !good { return violb(format!("frames {}, {} and {} of kind {} in one reader: {}", i, j, k, what, show(&o)), &d); }
        }
    }
    ch.state((what * 1000 + i * 2 + variable as usize) as u64);
    ch.sample(|| format!("kind {}, frame {} before each of {} others and a third", what, i, size));
    Ok(())
}

// ------------------------------------------------------------------ every value of a sample: C01

pub fn every_value(ch: &mut Ch) -> R {
    let bps = ch.pick(&[8u32, 12, 16, 20, 24]);
    let n = 4096usize.min(1 << bps);
    let part = ch.choose((1usize << bps) / n);
    let lo = -(1i64 << (bps - 1));
    let a: Vec<i64> = (0..n).map(|i| lo + (part * n + i) as i64).collect();
    let turned: Vec<i64> = { let mask = (1i64 << bps) - 1; a.iter().map(|&x| { let u = (x.wrapping_mul(0x9e37_79b1) ^ x >> 3) & mask; if u >> (bps - 1) != 0 { u - (1 << bps) } else { u } }).collect() };
    let neg: Vec<i64> = a.iter().map(|&x| -1 - x).collect();
    let mode = part % 4;
    for how in 0..6 {
        let (chan, pcm, kind): (Chan, Vec<Vec<i64>>, Kind) = match how {
            0 => (Chan::Ind(1), vec![a.clone()], Kind::Verbatim),
            1 => (Chan::Ind(1), vec![a.clone()], Kind::Fixed(0, res(bps > 14, (part % 3) as u32, K::Auto))),
            2 => ([Chan::MS, Chan::LS, Chan::RS, Chan::MS][mode], vec![a.clone(), turned.clone()], Kind::Verbatim),
            3 => ([Chan::LS, Chan::RS, Chan::MS, Chan::MS][mode], vec![neg.clone(), a.clone()], Kind::Verbatim),
            4 => ([Chan::RS, Chan::MS, Chan::LS, Chan::Ind(2)][mode], vec![a.clone(), turned.iter().map(|x| x >> 3).collect()], Kind::Fixed(1, res(true, 0, K::Auto))),
            _ => (Chan::Ind(1), vec![a.iter().rev().cloned().collect()], lpc(&[2, -1], 4, 0, res(true, 0, K::Auto))),
        };
        let Some(d) = quick_frame(chan, bps, true, 0, &pcm, &[sub(kind)]) else { continue };
        let w = Blk { time: 0, dur: n as u32, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
        let g = nopanic(&d, || FrameReader::new(SliceRb::new(&d)).read_next_or_eof(vec![]))?;
        match g { Ok(Some(g)) => if let Err(e) = same(&g, &w) { return violb(format!("{} bits, values from {} on, {:?}, way {}: {}", bps, a[0], chan, how, e), &d); }, o => return violb(format!("{} bits, values from {} on, {:?}, way {}: {:?}", bps, a[0], chan, how, o.map(|_| "end")), &d) }
        ch.exec(true);
    }
    ch.state(mix(bps as u64, part as u64));
    ch.sample(|| format!("{} bits, values from {} on", bps, a[0]));
    Ok(())
}
/// Running sums and seams in long blocks: every place a piece of a power of two could end, with signs and levels.
pub fn long_levels(ch: &mut Ch) -> R {
    let n = ch.pick(&[1000usize, 4096, 4097, 8191, 8193, 9000, 16385, 32769, 65535]);
    let bps = ch.pick(&[16u32, 24, 8]);
    let (min, max) = (-(1i64 << (bps - 1)), (1i64 << (bps - 1)) - 1);
    let lv = ch.pick(&[-1i64, -3, 1, min, max, min + 1, -100]);
    let shape = ch.choose(4);
    let s: Vec<i64> = (0..n).map(|i| match shape { 0 => lv, 1 => if i % 4096 < 2048 { lv } else { -1 - lv }, 2 => lv / 2 + (i as i64 % 3) - 1, _ => lv / 4 + ((i as i64) % 257) * (lv / 1024) }.max(min).min(max)).collect();
    for kind in [Kind::Fixed(1, res0()), Kind::Fixed(2, res(true, 0, K::Auto)), Kind::Fixed(3, res(true, 0, K::Auto)), Kind::Fixed(4, res(true, 0, K::Auto)), lpc(&[1], 3, 0, res(true, 0, K::Auto)), lpc(&[16, -8], 8, 3, res(true, 0, K::Auto)), lpc(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], 4, 0, res(true, 0, K::Auto)), Kind::Fixed(0, res(true, 0, K::Auto))] {
        for chan in [Chan::Ind(1), Chan::MS, Chan::RS] {
            let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| if c == 0 { s.clone() } else { s.iter().rev().map(|x| x / 2).collect() }).collect();
            let Some(d) = quick_frame(chan, bps, true, 0, &pcm, &[sub(kind.clone())]) else { continue };
            let w = Blk { time: 0, dur: n as u32, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
            let g = nopanic(&d[..d.len().min(999)], || FrameReader::new(SliceRb::new(&d)).read_next_or_eof(vec![]))?;
            match g { Ok(Some(g)) => if let Err(e) = same(&g, &w) { return violb(format!("{} samples of {} bits about {}, shape {}, {:?}: {}", n, bps, lv, shape, chan, e), &d); }, o => return violb(format!("{} samples of {} bits about {}, shape {}, {:?}: {:?}", n, bps, lv, shape, chan, o.map(|_| "end")), &d) }
            ch.exec(true);
        }
    }
    ch.state(mix(n as u64, mix(bps as u64, mix(lv as u64, shape as u64))));
    ch.sample(|| format!("{} samples of {} bits about {}, shape {}", n, bps, lv, shape));
    heartbeat();
    Ok(())
}

// ------------------------------------------------------------------ partitions and parameters: C01, C11

pub fn partition_parameters(ch: &mut Ch) -> R {
    let porder = ch.range(0, 15) as u32;
    let per = ch.pick(&[1usize, 2, 3, 4, 5, 8, 17, 33]);
    let n = per << porder;
    if n > 65535 { return Ok(()); }
    let rice2 = ch.flag();
    for order in 0..7 {
        let (o, mk): (usize, &dyn Fn(Res) -> Kind) = match order {
            0 => (0, &|r| Kind::Fixed(0, r)), 1 => (1, &|r| Kind::Fixed(1, r)), 2 => (2, &|r| Kind::Fixed(2, r)), 3 => (4, &|r| Kind::Fixed(4, r)),
            4 => (1, &|r| lpc(&[1], 2, 0, r)), 5 => (2, &|r| lpc(&[-3, 2], 5, 2, r)), _ => (17, &|r| lpc(&[1; 17], 3, 5, r)),
        };
        if per < o { continue; }
        for k in 0..if rice2 { 31 } else { 15u32 } {
            for shape in 0..4usize {
                let s: Vec<i64> = (0..n).map(|i| match shape { 0 => (i % 3) as i64 - 1, _ => if i % per.max(2) == 0 { [100i64, -90, 7][i % 3] } else { -1 } }).collect();
                let parts = 1usize << porder;
                if shape >= 2 && parts == 1 || shape == 3 && parts == 2 { continue; }
                let kk = if shape == 0 { K::Fixed(k) } else { let mut v = vec![5; parts]; v[[0, 0, parts - 1, parts / 2][shape]] = k; K::Cycle(v) };
                let Some(d) = quick_frame(Chan::Ind(1), 16, true, 0, &[s.clone()], &[sub(mk(res(rice2, porder, kk)))]) else { continue };
                let what = || format!("{} samples, partition order {}, {} samples each, predictor {} of order {}, parameter {} (Rice2: {}), shape {}", n, porder, per, order, o, k, rice2, shape);
                let g = nopanic(&d[..d.len().min(999)], || FrameReader::new(SliceRb::new(&d)).read_next_or_eof(vec![]))?;
                let w = Blk { time: 0, dur: n as u32, ch: 1, data: s.iter().map(|&x| x as i32).collect() };
                match g { Ok(Some(g)) => if let Err(e) = same(&g, &w) { return violb(format!("{}: {}", what(), e), &d); }, x => return violb(format!("{}: {:?}", what(), x.map(|_| "end")), &d) }
                ch.exec(true);
            }
        }
    }
    ch.state(mix(porder as u64, (per * 2 + rice2 as usize) as u64));
    ch.sample(|| format!("partition order {} of {} samples each, Rice2 {}", porder, per, rice2));
    heartbeat();
    Ok(())
}
