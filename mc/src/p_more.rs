//! Products that go through all of one dimension of the metadata, the byte readers and the tags.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_bytes::{check, Op};
use crate::p_client::*;
use crate::p_meta::*;
use crate::p_fault::etext;
use crate::src::*;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::FlacReader;
use claxon::metadata::{self, MetadataBlockReader};
use std::io::Cursor;

pub fn lens(small: u64, max: u64) -> Vec<usize> { edges(small, max).into_iter().map(|x| x as usize).collect() }
pub fn text(n: usize, seed: usize) -> Vec<u8> { (0..n).map(|i| b'a' + ((i * 7 + i / 26 + i / 4096 * 3 + seed) % 26) as u8).collect() }

// ------------------------------------------------------------------ C07, C20
/// Strings and data of every interesting length.
fn meta_of(ty: usize, n: usize) -> (u8, Vec<u8>, String) {
    let t = text(n, ty);
    match ty {
        0 => { let mut b = vec![1, 2, 3, 4]; b.extend(&t); (2, b, format!("app {} {:?}", 0x01020304, t)) }
        1 => { let b = vorbis(&t, &[b"k=v", b"l=w"]); (4, b, format!("vc {:?} {:?}", String::from_utf8(t).unwrap(), vec![("k=v".to_string(), 1), ("l=w".to_string(), 1)])) }
        2 => { let c = [b"k=", &t[..]].concat(); let b = vorbis(b"vend", &[b"a=b", &c, b"z=y"]); (4, b, format!("vc {:?} {:?}", "vend", vec![("a=b".to_string(), 1), (String::from_utf8(c).unwrap(), 1), ("z=y".to_string(), 1)])) }
        _ => { let c = [&t[..], b"=1"].concat(); let b = vorbis(b"", &[&c, &c]); let s = String::from_utf8(c).unwrap(); (4, b, format!("vc {:?} {:?}", "", vec![(s.clone(), n), (s, n)])) }
    }
}
pub fn memory_lengths(ch: &mut Ch) -> R {
    let l = lens(ch.t(70, 700), ch.t(140_000, 1_200_000));
    let n = l[ch.choose(l.len())];
    let ty = ch.choose(4);
    let (t, body, want) = meta_of(ty, n);
    for p in [0xAAu8, 0x55] {
        for k in 0..4 {
            let got = nopanic(&body, || poison(p, || { let len = body.len() as u32; match k {
                0 => mb_text(&metadata::read_metadata_block(&mut Cursor::new(&body), t, len)),
                1 => mb_text(&metadata::read_metadata_block(&mut BufferedReader::new(&body[..]), t, len)),
                2 => mb_text(&metadata::read_metadata_block(&mut BufferedReader::new(Src::new(&body).chunk(Chunk::Uniform(1000)).scribble(p)), t, len)),
                _ => mb_text(&metadata::read_metadata_block(&mut SliceRb::new(&body), t, len)),
            } }))?;
            ch.exec(true);
            if got != want { return violb(format!("metadata type {} with {} bytes in form {}, input {}, fresh memory {:#x}: {:.80}.. instead of {:.80}..", t, n, ty, k, p, got, want), &body[..body.len().min(5000)]); }
        }
        // and with the data missing at the end
        for cut in [1usize, 2, n / 2, n.saturating_sub(3)] { if cut == 0 || cut > body.len() { continue; }
            let d = &body[..body.len() - cut];
            let r = nopanic(d, || poison(p, || metadata::read_metadata_block(&mut BufferedReader::new(d), t, body.len() as u32).map(|_| ()).map_err(|e| ec(&e))))?;
            ch.exec(true);
            if r != Err(EOFE) { return violb(format!("metadata type {} of {} bytes with {} missing: {:?}", t, body.len(), cut, r), &d[..d.len().min(5000)]); }
        }
    }
    heartbeat();
    ch.state(mix(n as u64, ty as u64));
    ch.sample(|| format!("text of {} bytes in form {}, two fillings of fresh memory", n, ty));
    Ok(())
}
fn meta_pool() -> &'static [(u8, Vec<u8>, String)] {
    static C: std::sync::OnceLock<Vec<(u8, Vec<u8>, String)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<(u8, Vec<u8>, String)> = vec![];
        for n in lens(12, 9000).into_iter().step_by(2) { for ty in 0..4 { v.push(meta_of(ty, n)); } }
        let mut plain: Vec<(u8, Vec<u8>)> = vec![(0, Info::new(16, 1, 8, 5).bytes()), (0, Info::new(4096, 8, 24, 1 << 35).bytes()), (0, vec![0; 34]), (1, vec![0; 3]), (1, vec![]), (2, vec![1]), (3, vec![7; 36]), (4, vec![9; 12]), (4, vorbis(b"\xff", &[])), (4, vorbis(b"v", &[b"noeq"])), (4, vorbis(b"v", &[b"", b"", b"a=b"])), (5, vec![3; 9]), (6, vec![4; 40]), (70, vec![1, 2]), (127, vec![])];
        for k in 0..9usize { plain.push((4, vorbis(b"v", &vec![&b"n=value"[..]; k]))); }
        for (t, b) in plain { let s = mb_text(&metadata::read_metadata_block(&mut SliceRb::new(&b), t, b.len() as u32)); v.push((t, b, s)); }
        v
    })
}
pub fn meta_pairs(ch: &mut Ch) -> R {
    let p = meta_pool();
    let a = &p[ch.choose(p.len())];
    for b in p {
        for x in [a, b] {
            let got = nopanic(&x.1, || mb_text(&metadata::read_metadata_block(&mut SliceRb::new(&x.1), x.0, x.1.len() as u32)))?;
            ch.exec(true);
            if got != x.2 { return violb(format!("metadata type {} of {} bytes: {:.100}, on its own {:.100}", x.0, x.1.len(), got, x.2), &x.1); }
        }
    }
    heartbeat();
    ch.state(hash_bytes(a.0 as u64, &a.1));
    Ok(())
}
pub fn stream_pairs(ch: &mut Ch) -> R {
    let v = small_pool();
    let step = ch.t(9, 3);
    let i = ch.choose(v.len() / step) * step;
    let a = v[i];
    for (j, b) in v.iter().enumerate().skip(i % 5).step_by(step + 2) {
        let x = nopanic(&a.bytes, || full(Src::new(&a.bytes)))?;
        if x.obs.len() != a.blks.len() + 1 { return violb(format!("{}: {}", frames()[i].what, show(&x.obs)), &a.bytes); }
        let got = nopanic(&b.bytes, || if j % 2 == 0 { full(Src::new(&b.bytes).chunk(Chunk::Uniform(50))) } else { full(&b.bytes[..]) })?;
        ch.execs(2, 2);
        if got.meta != Ok(meta_expect(b)) || got.obs != expect_all(b) { return violb(format!("read after another stream: {}, expected {}", show(&got.obs), show(&expect_all(b))), &b.bytes); }
    }
    heartbeat();
    ch.state(hash_bytes(20, &a.bytes));
    Ok(())
}

// ------------------------------------------------------------------ C13
/// The separator at every place of comments of every length.
pub fn separators(ch: &mut Ch) -> R {
    let max = ch.t(400, 1100);
    let l = lens(max, 70_000);
    let n = l[ch.choose(l.len())];
    if n == 0 { return Ok(()); }
    let ps: Vec<usize> = if n <= max as usize { (0..n).collect() } else { let mut v: Vec<usize> = lens(70, 70_000).into_iter().filter(|&p| p < n).collect(); v.extend([n - 1, n - 2, n - 3]); v };
    let t = text(n, 3);
    for (k, &p) in ps.iter().enumerate() {
        let mut c = t.clone();
        c[p] = b'=';
        for second in [None, Some(p + 1), Some(n - 1), Some((p + n) / 2)] {
            if let Some(q) = second { if q <= p || q >= n || n > 300 && k % 5 != 0 { continue; } }
            let mut c = c.clone();
            if let Some(q) = second { c[q] = b'='; }
            let b = vorbis(b"v", &[&c]);
            vc_check(ch, b.len() as u32, &b, if n > 80 || second.is_some() { 2 } else { 0 })?;
        }
    }
    // none at all
    let b = vorbis(b"v", &[&t]);
    vc_check(ch, b.len() as u32, &b, 0)?;
    heartbeat();
    ch.sample(|| format!("comments of {} bytes with the separator at {} places", n, ps.len()));
    Ok(())
}
/// A character that must be rejected (or a multi-byte one that must not) at every place.
pub fn places(ch: &mut Ch) -> R {
    let n = ch.range(1, ch.t(72, 300));
    let bad: &[&[u8]] = &[b"\x1f", b"\x7e", b"\x7f", b"\x00", b"\x80", b"\xff", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\x20", b"\x7d", b"\xc0\x80", b"\xf4\x90\x80\x80"];
    let x = ch.choose(bad.len());
    let x = bad[x];
    let t = text(n, 1);
    for p in 0..=n {
        let s = [&t[..p], x, &t[p..]].concat();
        let name = [&s[..], b"=value"].concat();
        let value = [b"k=", &s[..]].concat();
        for b in [vorbis(&s, &[b"a=b"]), vorbis(b"v", &[b"a=b", &name, b"c=d"]), vorbis(b"v", &[b"a=b", &value])] { vc_check(ch, b.len() as u32, &b, if p % 8 == 0 { 0 } else { 2 })?; }
    }
    heartbeat();
    ch.sample(|| format!("bytes {:x?} at every place of texts of {} bytes", x, n));
    Ok(())
}
/// Every vendor length and comment count of the interesting ones, one comment length odd.
pub fn counts(ch: &mut Ch) -> R {
    let l = lens(ch.t(140, 600), 5000);
    let n = l[ch.choose(l.len())];
    let kind = ch.choose(4);
    let cs: Vec<Vec<u8>> = (0..n).map(|i| match kind { 0 => b"=".to_vec(), 1 => vec![], 2 => format!("n{}=v{}", i, i * 3).into_bytes(), _ => if i % 3 == 1 { vec![] } else { format!("{}=", "x".repeat(i % 40)).into_bytes() } }).collect();
    let refs: Vec<&[u8]> = cs.iter().map(|c| &c[..]).collect();
    let b = vorbis(&text(n % 300, 0), &refs);
    vc_check(ch, b.len() as u32, &b, 0)?;
    let at = 4 + n % 300;
    for d in [1u32, 2, 0xffff_ffff, 0x0001_0000, 0x8000_0000, 0x0100_0000] { let mut c = b.clone(); c[at..at + 4].copy_from_slice(&(n as u32).wrapping_add(d).to_le_bytes()); vc_check(ch, c.len() as u32, &c, 2)?; }
    ch.sample(|| format!("{} comments of kind {}", n, kind));
    Ok(())
}

// ------------------------------------------------------------------ C14
pub fn repeats(ch: &mut Ch) -> R {
    let pal = [("A", "1"), ("a", "1"), ("A", "2"), ("B", "1"), ("", "")];
    let n = ch.range(0, ch.t(6, 8));
    let tags: Vec<(String, String)> = (0..n).map(|_| { let (a, b) = pal[ch.choose(if n > 6 { 4 } else { 5 })]; (a.to_string(), b.to_string()) }).collect();
    tag_check(ch, &tags, &["a".into(), "A".into(), "b".into(), "".into(), "1".into()])?;
    ch.sample(|| format!("{:?}", tags));
    Ok(())
}
/// Names of every length, differing from the one asked for in one place.
pub fn long_names(ch: &mut Ch) -> R {
    let l = lens(ch.t(80, 300), 2100);
    let n = l[ch.choose(l.len())];
    if n == 0 { return Ok(()); }
    // The characters next to the letters fold to themselves, though they differ in bit 5 only.
    let chars = b"aZ@[`{mM5-zA_ ]}^|";
    let name: String = (0..n).map(|i| chars[(i * 5 + n) % chars.len()] as char).collect();
    let other: String = name.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    let tags = vec![(name.clone(), "1".to_string()), ("x".to_string(), "2".to_string()), (other.clone(), "3".to_string())];
    let mut needles = vec![name.clone(), other.clone(), name.to_ascii_lowercase(), name.to_ascii_uppercase(), format!("{}x", name), format!("{}\u{0}", name), format!("{} ", other), format!("{}=1", name), format!("x{}", name)];
    let ps: Vec<usize> = if n <= 80 { (0..n).collect() } else { lens(34, n as u64 - 1).into_iter().chain([n - 1]).collect() };
    for p in ps {
        let mut b = name.clone().into_bytes();
        b[p] ^= 0x20;
        needles.push(String::from_utf8(b.clone()).unwrap());
        b[p] ^= 0x21;
        needles.push(String::from_utf8(b).unwrap());
        needles.push(name[..p].to_string());
        needles.push(format!("{}{}{}", &name[..p], '\u{e9}', &name[p + 1..]));
    }
    tag_check(ch, &tags, &needles)?;
    heartbeat();
    ch.sample(|| format!("name of {} characters x {} others", n, needles.len()));
    Ok(())
}
/// Lists of every interesting length.
pub fn long_lists(ch: &mut Ch) -> R {
    let l = lens(ch.t(80, 400), ch.t(1100, 9000));
    let n = l[ch.choose(l.len())];
    let tags: Vec<(String, String)> = (0..n).map(|i| (["Title", "ARTIST", "title", "", "z"][(i * i + i / 5) % 5].to_string(), if i % 7 == 0 { "same".to_string() } else { format!("{}", i) })).collect();
    tag_check(ch, &tags, &["TITLE".into(), "artist".into(), "".into(), "Z".into(), "none".into()])?;
    heartbeat();
    ch.sample(|| format!("{} tags", n));
    Ok(())
}

// ------------------------------------------------------------------ C19
fn numbers(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + 0x81 + (i >> 8) * 3 + (i >> 16) * 11) as u8).collect() }
fn on_readers(ch: &mut Ch, d: &[u8], ops: &[Op], chunks: &[usize]) -> R {
    for &c in chunks { for scr in [None, Some(0xffu8), Some(0)] { let s = Src::new(d).chunk(Chunk::Uniform(c)); check(d, 0, &mut BufferedReader::new(if let Some(x) = scr { s.scribble(x) } else { s }), ops, ch)?; ch.exec(true); } }
    check(d, 0, &mut Cursor::new(d), ops, ch)?;
    check(d, 0, &mut Cursor::new(d.to_vec()), ops, ch)?;
    { let mut r = BufferedReader::new(d); check(d, 0, &mut &mut r, ops, ch)?; }
    ch.execs(3, 3);
    Ok(())
}
pub fn skips(ch: &mut Ch) -> R {
    let e = lens(ch.t(40, 300), u32::MAX as u64);
    let k = e[ch.choose(e.len())];
    let n = ch.pick(&[0usize, 1, 7, 300, cap() - 1, cap(), cap() + 1, 2 * cap() + 1, 9000, 70_000]);
    let pre = ch.pick(&[0usize, 1, 6, cap() - 1, cap()]);
    if pre > n { return Ok(()); }
    let d = numbers(n);
    on_readers(ch, &d, &[Op::Skip(pre as u32), Op::Skip(k as u32), Op::U8e, Op::Skip(k as u32), Op::U8e, Op::Be16e], &[usize::MAX, 1000])?;
    on_readers(ch, &d, &[Op::U8e, Op::Skip(k as u32), Op::Be24], &[usize::MAX, 333])?;
    ch.sample(|| format!("skip of {} in {} bytes from {}", k, n, pre));
    heartbeat();
    Ok(())
}
pub fn bulks(ch: &mut Ch) -> R {
    let e = lens(ch.t(40, 300), 140_000);
    let k = e[ch.choose(e.len())];
    let n = ch.pick(&[0usize, 1, 7, 300, cap() - 1, cap(), cap() + 1, 2 * cap() + 1, 9000, 66_000, 132_000]);
    let pre = ch.pick(&[0usize, 1, 6, cap() - 1, cap()]);
    if pre > n || ch.quick() && n > 10_000 && k < 2000 && k % 8 != 0 { return Ok(()); }
    let d = numbers(n);
    on_readers(ch, &d, &[Op::Skip(pre as u32), Op::Into(k), Op::U8e, Op::Into(k / 2), Op::Be16e], &[usize::MAX, 1000])?;
    ch.sample(|| format!("bulk read of {} in {} bytes from {}", k, n, pre));
    heartbeat();
    Ok(())
}
/// Every call across every cut, with what lies in the unused buffer chosen by the source.
pub fn stale(ch: &mut Ch) -> R {
    let first = ch.range(0, 8);
    let second = ch.range(0, 5);
    let third = ch.range(0, 4);
    let d: Vec<u8> = (0..first + second + third).map(|i| [0x00u8, 0xff, 0x80, 0x12, 0x7f, 0xfe, 0x01, 0x55][(i * 3 + first) % 8]).collect();
    let cuts = vec![first, first + second];
    const O: [Op; 10] = [Op::U8, Op::U8e, Op::Be16, Op::Be16e, Op::Be24, Op::Be32, Op::Le32, Op::Into(3), Op::Skip(2), Op::Into(5)];
    let depth = ch.t(2, 3);
    let mut ops: Vec<Op> = (0..depth).map(|_| ch.pick(&O)).collect();
    for &o in &O { for &p in &O {
        ops.push(o); ops.push(p);
        for scr in [None, Some(0xffu8), Some(0), Some(0xa5)] {
            let s = Src::new(&d).chunk(Chunk::Cuts(cuts.clone()));
            check(&d, 0, &mut BufferedReader::new(if let Some(x) = scr { s.scribble(x) } else { s }), &ops, ch)?;
            ch.exec(true);
        }
        ops.truncate(depth);
    } }
    ch.sample(|| format!("{} + {} + {} bytes, {:?} and every two calls", first, second, third, ops));
    Ok(())
}

// ------------------------------------------------------------------ C15
/// The iterator over blocks of every interesting length, in pairs.
pub fn lengths(ch: &mut Ch) -> R {
    let l = lens(ch.t(48, 300), ch.t(140_000, 1 << 20));
    let n = l[ch.choose(l.len())];
    let ty = ch.pick(&[1u8, 2, 3, 5, 6, 7, 64, 126]);
    let last = ch.flag();
    let body: Vec<u8> = numbers(n);
    let mut d = block(last, ty, &body);
    d.extend(block(true, 2, b"abcdef"));
    d.extend([0xffu8; 9]);
    let first = d.len() - 9 - 10;
    for k in 0..3 {
        let (pos, items) = nopanic(&d, || {
            let mut out = vec![];
            let mut c = Cursor::new(&d[..]);
            let mut go = |it: &mut dyn Iterator<Item = claxon::Result<metadata::MetadataBlock>>| for _ in 0..5 { out.push(it.next().map(|r| mb_text(&r))); };
            match k { 0 => go(&mut MetadataBlockReader::new(&mut c)), 1 => go(&mut MetadataBlockReader::new(BufferedReader::new(&d[..]))), _ => go(&mut MetadataBlockReader::new(BufferedReader::new(Src::new(&d).chunk(Chunk::Uniform(1000)).scribble(0xff)))) }
            (c.position() as usize, out)
        })?;
        let a = match ty { 1 => Some(format!("padding {}", n)), 2 if n >= 4 => Some(format!("app {} {:?}", u32::from_be_bytes([body[0], body[1], body[2], body[3]]), body[4..].to_vec())), 2 => None, 3 | 5 | 6 => Some(items[0].clone().filter(|s| !s.starts_with("FormatError") && !s.starts_with("IoError") && !s.starts_with("Unsupported")).unwrap_or("a block".into())), _ => Some("other".into()) };
        let mut want = vec![];
        if let Some(a) = &a { want.push(Some(a.clone())); if !last { want.push(Some(format!("app {} {:?}", u32::from_be_bytes(*b"abcd"), b"ef".to_vec()))); } }
        ch.exec(true);
        let got_err = a.is_none();
        if got_err {
            if !matches!(&items[0], Some(s) if s.starts_with("FormatError")) || items[1..].iter().any(|x| x.is_some()) { return violb(format!("application block of {} bytes: {:.200}", n, format!("{:?}", items)), &d); }
            continue;
        }
        let w = want.len();
        if items[..w] != want[..] || items[w..].iter().any(|x| x.is_some()) { return violb(format!("block type {} of {} bytes (last {}), input {}: {:.200}", ty, n, last, k, format!("{:?}", items)), &d[..d.len().min(5000)]); }
        let end = if last { first } else { d.len() - 9 };
        if k == 0 && pos != end { return violb(format!("block type {} of {} bytes (last {}): cursor at {}, expected {}", ty, n, last, pos, end), &d[..d.len().min(5000)]); }
    }
    heartbeat();
    ch.state(mix(n as u64, ty as u64 * 2 + last as u64));
    ch.sample(|| format!("block type {} of {} bytes, last {}", ty, n, last));
    Ok(())
}

// ------------------------------------------------------------------ C05
/// Blocks and frames read straight from a `BufferedReader`, cut at every two places.
pub fn direct_cuts(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().into_iter().filter(|b| b.bytes.len() < 700).collect();
    let b = c[ch.choose(c.len())];
    let frames = ch.flag();
    let d: &[u8] = if frames { if b.frame_offs.is_empty() { return Ok(()) } &b.bytes[b.frame_offs[0]..] } else { &b.bytes[4..] };
    let scr = ch.pick(&[0xffu8, 0x00, 0xa5, 0x5a]);
    let a = ch.range(1, 700);
    if a >= d.len() { return Ok(()); }
    let look = |s: Src| -> Vec<String> {
        let mut r = BufferedReader::new(s);
        let mut out = vec![];
        if frames {
            let mut fr = claxon::frame::FrameReader::new(r);
            for _ in 0..20 { match fr.read_next_or_eof(vec![]) { Ok(Some(x)) => out.push(format!("{:?}", blk(&x))), Ok(None) => { out.push("end".into()); break } Err(e) => { out.push(etext(&e)); break } } }
        } else {
            for _ in 0..6 { let m = metadata::read_metadata_block_with_header(&mut r); let e = m.is_err(); out.push(mb_text(&m)); if e { break } }
            let mut r = MetadataBlockReader::new(r);
            out.push(format!("{:?}", r.next().map(|m| mb_text(&m))));
        }
        out
    };
    let it = |s: Src| -> Vec<String> { if frames { vec![] } else { MetadataBlockReader::new(BufferedReader::new(s)).take(20).map(|m| mb_text(&m)).collect() } };
    let base = nopanic(d, || (look(Src::new(d)), it(Src::new(d))))?;
    let step = ch.t(5, 1);
    for e in std::iter::once(d.len()).chain((a + 1..d.len()).filter(|e| e - a < 6 || e % step == 0)) {
        let src = || Src::new(d).chunk(Chunk::Cuts(vec![a, e])).scribble(scr);
        let got = nopanic(d, || (look(src()), it(src())))?;
        ch.exec(true);
        if got != base { return violb(format!("{} delivered as {} + {} + {} bytes, unused buffer {:#x}: {:.300}; at once: {:.300}", if frames { "frames" } else { "metadata" }, a, e - a, d.len() - e, scr, format!("{:?}", got), format!("{:?}", base)), d); }
    }
    ch.state(mix(hash_bytes(3, d), (a as u64) << 8 | scr as u64));
    ch.sample(|| format!("{} of {}, first cut after {}, unused buffer {:#x}", if frames { "frames" } else { "metadata" }, b.name, a, scr));
    Ok(())
}
/// Single read calls of a `BufferedReader` give the same on every delivery.
pub fn direct_calls(ch: &mut Ch) -> R {
    const O: [Op; 10] = [Op::U8, Op::U8e, Op::Be16, Op::Be16e, Op::Be24, Op::Be32, Op::Le32, Op::Into(3), Op::Skip(2), Op::Into(6)];
    let ops = [ch.pick(&O), ch.pick(&O), ch.pick(&O)];
    let n = ops.iter().map(|&o| crate::p_bytes::width(o)).sum::<usize>();
    for seed in 0..3 {
        let d: Vec<u8> = (0..n + 1).map(|i| [0x00u8, 0xff, 0x80, 0x12, 0x7f, 0xfe, 0x01, 0x55][(i * 3 + seed * 2) % 8]).collect();
        for cuts in (0..n).flat_map(|a| (a..n).map(move |b| vec![a, b, n])).chain((1..5).map(|k| (1..n).step_by(k).collect())) {
            for scr in [0xffu8, 0, 0xa5] {
                check(&d, 0, &mut BufferedReader::new(Src::new(&d).chunk(Chunk::Cuts(cuts.clone())).scribble(scr)), &[ops[0], ops[1], ops[2], Op::U8, Op::U8e], ch)?;
                ch.exec(true);
            }
        }
    }
    ch.sample(|| format!("{:?} across every two cuts", ops));
    Ok(())
}

// ------------------------------------------------------------------ C15, C16: large blocks
pub fn large_lens(quick: bool) -> Vec<usize> {
    let mut v = vec![0xff_ffff, 0xff_fffe, 10 << 20, (10 << 20) + 1, 9_999_999, 10_000_001, 0xc0_0000, 0xaa_aaaa, 0x55_5555];
    for k in 16..24usize { let d: &[i64] = if quick { &[-1, 0, 5] } else { &[-2, -1, 0, 1, 2, 5, 100, 2047] }; for x in d { v.push(((1i64 << k) + x) as usize); } }
    v.sort(); v.dedup();
    v
}
/// Blocks of up to 2^24 - 1 bytes: what follows is found where it is, by the iterator and at construction.
pub fn large(ch: &mut Ch) -> R {
    let l = large_lens(false);
    let n = l[ch.choose(l.len())];
    let ty = ch.pick(&[1u8, 2, 3, 5, 6, 7, 9, 64, 126]);
    if ty == 2 && n > 10 << 20 { return Ok(()); } // The library may refuse long application blocks.
    let fill = ch.pick(&[0u8, 0xff]);
    let body = vec![fill; n];
    let si = Info::new(16, 2, 16, 32).bytes();
    let mut f = b"fLaC".to_vec();
    f.extend(block(false, 0, &si));
    f.extend(block(false, ty, &body));
    f.extend(block(false, 4, &vorbis(b"ve", &[b"A=b"])));
    f.extend(block(true, 2, b"abcdef"));
    let end = f.len();
    f.extend(audio());
    let (pos, items) = nopanic(&[], || {
        let mut c = Cursor::new(&f[4..]);
        let items: Vec<String> = MetadataBlockReader::new(&mut c).map(|r| match r { Ok(metadata::MetadataBlock::StreamInfo(_)) => "info".into(), Ok(metadata::MetadataBlock::Padding { length }) => format!("padding {}", length), Ok(metadata::MetadataBlock::Application { id, ref data }) => format!("app {:x} {} {}", id, data.len(), data.iter().all(|&x| x == fill)), Ok(metadata::MetadataBlock::VorbisComment(ref v)) => format!("vc {:?}", v.vendor), Ok(_) => "other".into(), Err(e) => format!("error {:?}", e) }).take(9).collect();
        (c.position() as usize + 4, items)
    })?;
    let own = match ty { 1 => format!("padding {}", n), 2 => format!("app {:x} {} true", u32::from_be_bytes([fill; 4]), n - 4), _ => "other".into() };
    let want = vec!["info".to_string(), own, "vc \"ve\"".into(), "app 61626364 2 false".into()];
    let own_ok = items.len() == 4 && items[0] == want[0] && (items[1] == want[1] || matches!(ty, 3 | 5 | 6) && !items[1].starts_with("error")) && items[2..] == want[2..];
    ch.exec(true);
    if !own_ok { return viol(format!("block type {} of {} bytes of {:#x}: the iterator yields {:?}, expected {:?}", ty, n, fill, items, want)); }
    if pos != end { return viol(format!("block type {} of {} bytes of {:#x}: the iterator ends at {}, expected {}", ty, n, fill, pos, end)); }
    let (m, o) = nopanic(&[], || match FlacReader::new(&f[..]) {
        Ok(mut r) => (Ok((meta_ob(&r).vendor, meta_ob(&r).tags)), drain(&mut r.blocks(), 5).len()),
        Err(e) => (Err(ec(&e)), 0),
    })?;
    ch.exec(true);
    if m != Ok((Some("ve".into()), vec![("A".into(), "b".into())])) || o != 3 { return viol(format!("block type {} of {} bytes of {:#x} before the comments: reader {:?}, {} results by blocks", ty, n, fill, m, o)); }
    ch.state(mix(n as u64, ty as u64 * 256 + fill as u64));
    ch.sample(|| format!("block type {} of {} bytes of {:#x}, then comments, application data, audio", ty, n, fill));
    Ok(())
}
/// Many or long comments, long other blocks, in every position, under all options; the next block good or broken.
pub fn options_large(ch: &mut Ch) -> R {
    let (mo, vc) = (ch.flag(), ch.flag());
    let shape = ch.choose(3);
    let l = lens(ch.t(64, 300), ch.t(20_000, 200_000));
    let n = l[ch.choose(l.len())];
    let own = match shape {
        0 => { let c: Vec<&[u8]> = vec![b"a=b"; n]; (4, vorbis(b"v", &c)) }
        1 => (4, vorbis(&text(n, 1), &[b"a=b"])),
        _ => (4, vorbis(b"v", &[&[b"key=", &text(n, 2)[..]].concat(), b"x=y"])),
    };
    let si = (0u8, Info::new(16, 2, 16, 32).bytes());
    for (k, next) in [None, Some((127u8, vec![0u8; 4])), Some((1, vec![0; 9])), Some((2, vec![0; 3])), Some((6, text(n, 3))), Some((4, vorbis(b"", &[])))].into_iter().enumerate() {
        for front in [None, Some((1u8, vec![0u8; n])), Some((2, text(n + 4, 4)))] {
            let mut seq = vec![si.clone()];
            if let Some(x) = front { seq.push(x); }
            seq.push(own.clone());
            if let Some(x) = &next { seq.push(x.clone()); }
            let last = seq.len() - 1;
            let f = file(&seq, last, audio());
            opt_check(ch, &f, mo, vc, if f.len() < 3000 { 1 } else { 61 })?;
            if k % 2 == 0 { opt_check(ch, &f, mo, vc, 4000)?; }
        }
    }
    heartbeat();
    ch.sample(|| format!("comments of shape {} and size {}, metadata_only {} read_vorbis_comment {}", shape, n, mo, vc));
    Ok(())
}
// ------------------------------------------------------------------ C19: values
/// Every value of two and three bytes, in one long run through each kind of reader.
pub fn values(ch: &mut Ch) -> R {
    let a = ch.choose(256) as u8;
    let mut d = Vec::with_capacity(3 << 16);
    for b in 0..=255u8 { for c in 0..=255u8 { d.extend([a, b, c]); } }
    fn three<T: ReadBytes>(r: &mut T, a: u8) -> Option<String> {
        for bc in 0..=0xffffu32 { let w = (a as u32) << 16 | bc; match r.read_be_u24() { Ok(x) if x == w => {} x => return Some(format!("read_be_u24 on {:06x}: {:x?}", w, x)) } }
        None
    }
    // Bytes b a, b a, ...: all two-byte values with this second byte.
    let e: Vec<u8> = (0..=255u8).flat_map(|b| [a, b]).collect();
    fn two<T: ReadBytes>(r: &mut T, a: u8, how: u8) -> Option<String> {
        for b in 0..=255u8 {
            let w = (a as u16) << 8 | b as u16;
            let x = match how { 0 => r.read_be_u16(), 1 => r.read_be_u16_or_eof().map(|x| x.unwrap_or(!w)), _ => r.read_u8().and_then(|x| r.read_u8_or_eof().map(|y| (x as u16) << 8 | y.unwrap_or(!b) as u16)) };
            match x { Ok(x) if x == w => {} x => return Some(format!("reading {:04x} in way {}: {:x?}", w, how, x)) }
        }
        None
    }
    let mut bad = nopanic(&d[..3], || three(&mut Cursor::new(&d[..]), a).or_else(|| three(&mut BufferedReader::new(&d[..]), a)).or_else(|| three(&mut BufferedReader::new(Src::new(&d).chunk(Chunk::Uniform(1001))), a)).or_else(|| three(&mut SliceRb::new(&d), a)))?;
    for how in 0..3 { if bad.is_none() { bad = nopanic(&e, || two(&mut Cursor::new(&e[..]), a, how).or_else(|| two(&mut BufferedReader::new(&e[..]), a, how)).or_else(|| two(&mut BufferedReader::new(Src::new(&e).chunk(Chunk::Uniform(1))), a, how)).or_else(|| two(&mut SliceRb::new(&e), a, how)))?; } }
    ch.execs(4 * 65536 + 12 * 256, 4 * 65536);
    ch.state(a as u64);
    if let Some(m) = bad { return viol(m); }
    ch.sample(|| format!("all values of two and three bytes that begin with {:#x}", a));
    Ok(())
}
/// 32-bit values: every pair of bytes with the others out of 8 (thorough: every value).
pub fn values32(ch: &mut Ch) -> R {
    fn four<T: ReadBytes>(r: &mut T, v: &[u32], le: bool) -> Option<String> {
        for &w in v { let x = if le { r.read_le_u32() } else { r.read_be_u32() }; match x { Ok(x) if x == w => {} x => return Some(format!("read_{}_u32 on {:08x}: {:x?}", if le { "le" } else { "be" }, w, x)) } }
        None
    }
    let v: Vec<u32> = if ch.quick() {
        let (i, j) = ch.pick(&[(0u32, 1u32), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
        let x = ch.choose(256) as u32;
        let o = [0u8, 1, 0x7f, 0x80, 0xff, 0xa5, 0x5a, 0x10];
        let rest: Vec<u32> = (0..4).filter(|&k| k != i && k != j).collect();
        let mut v = vec![];
        for y in 0..256u32 { for &p in &o { for &q in &o { v.push(x << (8 * i) | y << (8 * j) | (p as u32) << (8 * rest[0]) | (q as u32) << (8 * rest[1])); } } }
        v
    } else {
        let hi = ch.choose(1 << 16) as u32;
        (0..=0xffffu32).map(|lo| hi << 16 | lo).collect()
    };
    let be: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes()).collect();
    let le: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut bad = None;
    for (d, l) in [(&be, false), (&le, true)] { if bad.is_none() { bad = nopanic(&d[..4], || four(&mut Cursor::new(&d[..]), &v, l).or_else(|| four(&mut BufferedReader::new(&d[..]), &v, l)).or_else(|| four(&mut SliceRb::new(d), &v, l)))?; } }
    ch.execs(6 * v.len() as u64, v.len() as u64);
    ch.state(v[0] as u64 ^ (v[1] as u64) << 32);
    if let Some(m) = bad { return viol(m); }
    ch.sample(|| format!("{} 32-bit values from {:08x} to {:08x}", v.len(), v[0], v[v.len() - 1]));
    Ok(())
}
