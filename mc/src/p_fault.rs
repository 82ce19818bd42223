//! C04, C05, C06, C22: truncation, delivery, source failures and what follows them.
use crate::common::*;
use crate::enc::*;
use crate::p_twise;
use crate::engine::*;
use crate::fam;
use crate::{p_more, p_pool};
use crate::p_bytes::{apply, value, width, Op, Out};
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::{Error, FlacReader};
use std::io::{self, Cursor, ErrorKind, Read};
use std::rc::Rc;

// ------------------------------------------------------------------ C04

/// What a stream cut after `cut` bytes must show when read by blocks.
pub fn cut_expect(b: &Built, cut: usize) -> (usize, Ob) {
    let n = b.blks.len();
    let k = (0..n).filter(|&i| b.frame_offs[i + 1] <= cut).count();
    (k, if b.frame_offs.contains(&cut) { Ob::End } else { Ob::Err(EOFE) })
}
pub fn cmp_blocks(b: &Built, bytes: &[u8], cut: usize, got: &[Ob], what: &str) -> R {
    let (k, end) = cut_expect(b, cut);
    let ok = got.len() == k + 1 && got[..k].iter().zip(&b.blks).all(|(g, w)| matches!(g, Ob::Blk(x) if x == w)) && got[k] == end;
    if ok { return Ok(()); }
    violb(format!("{} cut after {} of {} bytes (frames at {:?}), {}: got [{}], expected {} exact blocks and {}", b.name, cut, b.bytes.len(), b.frame_offs, what, show(got), k, end.short()), &bytes[..cut])
}
pub fn cmp_samples(b: &Built, cut: usize, got: &Smp, what: &str) -> R {
    let (k, end) = cut_expect(b, cut);
    let want: Vec<i32> = b.blks[..k].iter().flat_map(inter).collect();
    let we = if end == Ob::End { Ok(()) } else { Err(EOFE) };
    if got.v == want && got.end == we { return Ok(()); }
    violb(format!("{} cut after {} of {} bytes, {}: got {} samples then {:?}, expected {} samples then {:?}{}", b.name, cut, b.bytes.len(), what, got.v.len(), got.end, want.len(), we, if got.v.len() == want.len() && got.v != want { " (samples differ)" } else { "" }), &b.bytes[..cut])
}
/// All interfaces that read whole streams or bare frames.
pub fn cut_check(ch: &mut Ch, b: &Built, cut: usize, iface: usize, chunk: usize) -> R {
    let d = &b.bytes[..cut];
    let a0 = b.frame_offs[0];
    let max = b.blks.len() + 3;
    let smax = b.blks.iter().map(|x| x.data.len()).sum::<usize>() + 10;
    let src = || Src::new(d).chunk(Chunk::Uniform(chunk)).scribble(0xff);
    if cut < a0 {
        if iface >= 4 { return Ok(()); }
        let r = nopanic(d, || FlacReader::new_ext(src(), opts(false, iface != 3)).map(|_| ()))?;
        ch.exec(true);
        ch.state(mix(mix(b.bytes.len() as u64 * 7 + cut as u64, iface as u64), h(&b.info.md5)) ^ chunk as u64);
        return match r { Err(ref e) if ec(e) == EOFE => Ok(()), r => violb(format!("{} cut after {} bytes, inside the header or metadata (ends at {}): construction gave {:?}", b.name, cut, a0, r.map_err(|e| format!("{:?}", e))), d) };
    }
    let open = || FlacReader::new_ext(src(), opts(false, iface != 3));
    let failed = |e: Error| viol::<()>(format!("{} cut after {} bytes, past the metadata (ends at {}): construction failed: {:?}", b.name, cut, a0, e));
    match iface {
        0 | 3 => match nopanic(d, || open().map(|mut r| drain(&mut r.blocks(), max)))? { Ok(g) => cmp_blocks(b, &b.bytes, cut, &g, "blocks()")?, Err(e) => return failed(e) },
        1 => match nopanic(d, || open().map(|mut r| samples(&mut r.samples(), smax)))? { Ok(g) => cmp_samples(b, cut, &g, "samples()")?, Err(e) => return failed(e) },
        2 => match nopanic(d, || open().map(|r| samples(&mut r.into_samples(), smax)))? { Ok(g) => cmp_samples(b, cut, &g, "into_samples()")?, Err(e) => return failed(e) },
        4 => { let g = nopanic(d, || drain(&mut FrameReader::new(Cursor::new(&d[a0..])), max))?; cmp_blocks(b, &b.bytes, cut, &g, "frame reader on a cursor")? }
        5 => { let g = nopanic(d, || drain(&mut FrameReader::new(SliceRb::new(&d[a0..])), max))?; cmp_blocks(b, &b.bytes, cut, &g, "frame reader on a custom input")? }
        _ => { let g = nopanic(d, || drain(&mut FrameReader::new(BufferedReader::new(Src::new(&d[a0..]).chunk(Chunk::Uniform(chunk)))), max))?; cmp_blocks(b, &b.bytes, cut, &g, "frame reader on a buffered reader")? }
    }
    ch.exec(cut < b.bytes.len());
    ch.state(mix(mix(b.bytes.len() as u64 * 7 + cut as u64, iface as u64), h(&b.info.md5)) ^ chunk as u64 ^ h(&b.blks.first().map(|x| x.time)));
    Ok(())
}
pub fn cut_corpus(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(c.len())];
    let cut = ch.range(0, b.bytes.len());
    for iface in 0..7 { for chunk in [usize::MAX, 1, 2, 3, 7] { if chunk != usize::MAX && (iface == 4 || iface == 5) { continue; } cut_check(ch, b, cut, iface, chunk)?; } }
    ch.sample(|| format!("{} cut after {} bytes: {} blocks then {}", b.name, cut, cut_expect(b, cut).0, cut_expect(b, cut).1.short()));
    Ok(())
}
pub fn cut_zoo(ch: &mut Ch) -> R {
    let z = zoo();
    let i = ch.choose(z.len());
    let b = &z[i];
    for cut in b.frame_offs[0]..=b.bytes.len() {
        for (iface, chunk) in [(4, 1), (0, [usize::MAX, 1, 5][cut % 3]), (1, 64), (2, 2), (6, 3)] {
            if ch.quick() && iface != 4 && (cut + iface) % 4 != 0 { continue; }
            cut_check(ch, b, cut, iface, chunk)?;
        }
        heartbeat();
    }
    ch.sample(|| format!("3 frames of {} bit, {} channels, every cut of {} bytes", b.info.bps, b.info.ch, b.bytes.len()));
    Ok(())
}
/// Cuts around the internal buffer's boundary, at all alignments of the stream to it.
pub fn cut_align(ch: &mut Ch) -> R {
    let c = corpus();
    let i = ch.choose(5);
    let total = ch.range(0, ch.t(140, 420)); // where the 2048 boundary falls, counted from the first frame
    let span = c[i].bytes.len() - c[i].frame_offs[0];
    if total > span + 12 { return Ok(()); }
    let base = c[i].frame_offs[0] + 4; // audio offset with no padding at all
    let b = padded(&c[i], (cap() + 6).checked_sub(base + total).unwrap_or(0));
    for cut in ((cap()-12)..(cap()+14)).chain(b.frame_offs.iter().cloned()) {
        if cut > b.bytes.len() { continue; }
        for (iface, chunk) in [(0, usize::MAX), (1, usize::MAX), (2, cap()), (0, (cap()-1)), (6, usize::MAX)] { if ch.quick() && iface == 6 { continue; } cut_check(ch, &b, cut, iface, chunk)?; }
    }
    ch.sample(|| format!("{} with its first frame at {}, cut anywhere in 2036..2062", b.name, b.frame_offs[0]));
    Ok(())
}
pub fn big_stream(which: usize) -> &'static Built {
    static C: std::sync::OnceLock<Vec<Built>> = std::sync::OnceLock::new();
    let v = C.get_or_init(|| {
        let f = |chan: Chan, bps, n, seed, subs: Vec<Sub>| Fr { chan, bps, pcm: (0..chan.n()).map(|c| wave(n, bps, c, seed)).collect(), subs };
        let vc = vorbis(b"vendor", &[&[b"LONG=".to_vec(), vec![b'q'; 4500]].concat()[..], b"a=b"]);
        let mut big = build("big", Info { minb: 16, maxb: 2000, ..Info::new(16, 2, 16, 0) }, vec![(2, vec![0x41; 3000]), (4, vc), (6, vec![7; 2500])], true, 0, vec![
            f(Chan::Ind(2), 16, 1500, 1, vec![sub(Kind::Verbatim)]), f(Chan::MS, 16, 1700, 2, vec![sub(Kind::Fixed(2, res(false, 2, K::Auto)))]), f(Chan::Ind(1), 24, 900, 3, vec![sub(Kind::Fixed(1, res(true, 0, K::Auto)))])]);
        big = with_tags(big, "vendor", &[("LONG", &"q".repeat(4500)), ("a", "b")]);
        let wide = build("wide", Info { minb: 16, maxb: 600, ..Info::new(16, 8, 24, 0) }, vec![], true, 0, vec![f(Chan::Ind(8), 24, 300, 1, vec![sub(Kind::Verbatim), sub(lpc(&[2, -1], 4, 1, res(true, 1, K::Auto)))]), f(Chan::Ind(8), 8, 512, 2, vec![sub(Kind::Fixed(3, res(true, 0, K::Auto)))])]);
        vec![big, wide]
    });
    &v[which]
}
pub fn cut_big(ch: &mut Ch) -> R {
    let b = big_stream(ch.choose(2));
    let n = b.bytes.len();
    let step = ch.t(29, 3);
    let lo = ch.choose(n / 64 + 1) * 64;
    for cut in lo..(lo + 64).min(n + 1) {
        let near = b.frame_offs.iter().chain(&b.meta_offs).any(|&o| cut + 6 > o && cut < o + 6) || cut % cap() < 4 || cut % cap() > (cap()-5);
        if !near && cut % step != 0 { continue; }
        for (iface, chunk) in [(0, usize::MAX), (1, 1000), (2, 2*cap()), (4, 1), (3, (cap()-1))] { cut_check(ch, b, cut, iface, chunk)?; }
        heartbeat();
    }
    ch.sample(|| format!("{} ({} bytes) cut in {}..{}", b.name, n, lo, lo + 64));
    Ok(())
}
/// Metadata blocks cut everywhere, through every function that reads them.
pub fn cut_meta(ch: &mut Ch) -> R {
    let bodies: Vec<(u8, Vec<u8>)> = vec![(0, Info::new(4096, 2, 16, 99).bytes()), (1, vec![0; 9]), (1, vec![]), (2, b"abcdefgh".to_vec()), (2, b"abcd".to_vec()), (3, vec![0xff; 18]), (4, vorbis(b"v", &[b"a=b", b"", b"cc=dd"])), (4, vorbis(b"", &[])), (5, vec![2; 6]), (6, vec![3; 40]), (77, vec![4; 5]), (126, vec![1; 3]), (1, vec![0; 2100]), (2, vec![9; 2100]), (3, vec![8; 4100])];
    let (ty, body) = bodies[ch.choose(bodies.len())].clone();
    let full = block(true, ty, &body);
    let cut = ch.range(0, full.len());
    let d = &full[..cut];
    let whole = cut == full.len();
    let judge = |what: &str, r: Result<claxon::Result<MetadataBlock>, Viol>| -> R {
        match r? {
            Ok(_) if whole => Ok(()),
            Err(ref e) if !whole && ec(e) == EOFE => Ok(()),
            Ok(_) => violb(format!("block of type {} and {} bytes cut after {}: {} gave a block", ty, body.len(), cut, what), d),
            Err(e) => violb(format!("block of type {} and {} bytes cut after {}: {} gave {:?}", ty, body.len(), cut, what, e), d),
        }
    };
    judge("read_metadata_block_with_header on a cursor", nopanic(d, || metadata::read_metadata_block_with_header(&mut Cursor::new(d))))?;
    for c in [usize::MAX, 1, 3, (cap()-1)] { judge("read_metadata_block_with_header on a buffered reader", nopanic(d, || metadata::read_metadata_block_with_header(&mut BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(c)).scribble(0)))))?; }
    judge("the block iterator", nopanic(d, || MetadataBlockReader::new(Cursor::new(d)).next().unwrap_or(Err(Error::Unsupported("no first block")))))?;
    judge("the block iterator on a custom input", nopanic(d, || MetadataBlockReader::new(SliceRb::new(d)).next().unwrap_or(Err(Error::Unsupported("no first block")))))?;
    if cut >= 4 {
        judge("read_metadata_block on a cursor", nopanic(d, || metadata::read_metadata_block(&mut Cursor::new(&d[4..]), ty, body.len() as u32)))?;
        judge("read_metadata_block on a buffered reader", nopanic(d, || metadata::read_metadata_block(&mut BufferedReader::new(Src::new(&d[4..]).chunk(Chunk::Uniform(5))), ty, body.len() as u32)))?;
    }
    ch.execs(9, 9);
    ch.state(mix(ty as u64 | (body.len() as u64) << 8, cut as u64));
    ch.sample(|| format!("metadata block type {} of {} bytes cut after {}", ty, body.len(), cut));
    Ok(())
}
pub fn c04() -> Prop {
    Prop { id: "C04", level: "fault_enumeration",
        rule: "a case is a stream, a cut position, an interface and a read size; the delivered blocks or samples and the final answer are compared with those of the complete frames before the cut; distinct: (stream, cut, interface, read size)",
        assumptions: &["only prefixes of well-formed streams"],
        families: vec![
            fam!("corpus", "6 streams covering every metadata type and coding tool, every cut, 7 interfaces x 5 read sizes", cut_corpus),
            fam!("kinds", "231 streams: every subframe kind in every channel assignment, every cut, 5 interfaces", cut_zoo),
            fam!("alignment", "5 streams at every alignment to the internal buffer, cuts within 13 bytes of its boundary and at frame boundaries, 5 interfaces", cut_align),
            fam!("big", "two streams of 10 to 20 kB spanning several buffers: cuts near every boundary and every 29th (thorough: 3rd) position", cut_big),
            fam!("metadata", "15 metadata blocks, every cut, 6 entry points", cut_meta),
            fam!("pool", "about 2500 small frames of the pool and a second one behind each: every cut, 2 (9) interfaces each in rotation", p_pool::cuts),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features x every shorter length (of long frames the first 24, the last 6 and 60 others) x 3 inputs", p_twise::cuts),
            fam!("big-combinations", "9 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features: some 40 cuts", p_twise::big_cuts),
            fam!("histories", "every sequence of 4 (5) reads by one reader over some 50 events (good frames of many shapes, damage, ill-formed headers and subframes, ends, source errors) that ends in an end or a truncation, with 4 sorts of buffers", crate::p_hist::hist_ends),
            fam!("repeated", "each of these events 1 to 257 (some 30 numbers) and 66000 times, then an end or a truncation, with one reader", crate::p_hist::rep_ends),
            fam!("every-code", "every valid header of 25 block sizes x 24 rates x 16 channel codes x 8 sample sizes x 7 number lengths x 2 strategies (sizes above 4000 thinned), cut at every byte", crate::p_code::every_cut),
            fam!("announced", "the streams and stream infos of C01 announced: every cut of the audio, by blocks and by samples", crate::p_real::announced_cuts)
        ] }
}

// ------------------------------------------------------------------ C05

/// Everything observable, errors with their texts.
#[derive(PartialEq, Clone, Debug)]
pub struct Seen {  meta: Result<MetaOb, String>, obs: Vec<Ob>, errs: Vec<String>, smp: Option<(Vec<i32>, Option<String>)> }
pub fn etext(e: &Error) -> String { match e { Error::IoError(e) => format!("io {:?}", e.kind()), e => format!("{:?}", e) } }
pub fn seen<R: Read>(r: R, with_samples: bool) -> Seen {
    let mut s = Seen { meta: Ok(MetaOb { info: info_ref(&Info::new(16, 1, 8, 0)), vendor: None, tags: vec![] }), obs: vec![], errs: vec![], smp: None };
    let mut r = match FlacReader::new(r) { Err(e) => { s.meta = Err(etext(&e)); return s } Ok(r) => r };
    s.meta = Ok(meta_ob(&r));
    if with_samples {
        let mut v = vec![];
        let mut err = None;
        for x in r.samples() { match x { Ok(x) => v.push(x), Err(e) => err = Some(etext(&e)) } if v.len() > 200_000 { break; } }
        s.smp = Some((v, err));
    } else {
        let mut fr = r.blocks();
        let mut buf = vec![];
        for _ in 0..60 {
            match fr.read_next_or_eof(std::mem::replace(&mut buf, vec![])) {
                Ok(Some(b)) => { s.obs.push(Ob::Blk(blk(&b))); buf = b.into_buffer(); }
                Ok(None) => { s.obs.push(Ob::End); break; }
                Err(e) => { s.obs.push(Ob::Err(ec(&e))); s.errs.push(etext(&e)); if s.errs.len() >= 3 { break; } }
            }
        }
    }
    s
}
impl Seen {
    fn short(&self) -> String { format!("meta {:?}, {} {:?} {}", self.meta.as_ref().map(|m| m.tags.len()), show(&self.obs), self.errs, self.smp.as_ref().map_or(String::new(), |s| format!("{} samples, {:?}", s.0.len(), s.1))) }
}
pub fn seen_same(a: &Seen, b: &Seen, how: &str, d: &[u8]) -> R {
    if a == b { return Ok(()); }
    violb(format!("{}: saw {}; with everything delivered at once: {}", how, a.short(), b.short()), d)
}
/// Well-formed and defective streams.
pub fn streams() -> &'static [(String, Rc2)] {
    static C: std::sync::OnceLock<Vec<(String, Rc2)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<(String, Rc2)> = vec![];
        for b in corpus() {
            v.push((b.name.to_string(), Rc2(b.bytes.clone())));
            if b.blks.is_empty() { continue; }
            let mut add = |n: &str, f: &dyn Fn(&mut Vec<u8>)| { let mut x = b.bytes.clone(); f(&mut x); v.push((format!("{} {}", b.name, n), Rc2(x))); };
            let f1 = b.frame_offs[1];
            add("with a bad sync code in its second frame", &|x| x[f1] ^= 0x40);
            add("with a bad frame checksum", &|x| x[f1 - 1] ^= 1);
            add("with a bad header checksum", &|x| x[f1 + 5] ^= 0x10);
            add("with trailing bytes", &|x| x.extend([0xff, 0xf8, 0x00]));
            add("cut", &|x| { let n = x.len(); x.truncate(n - 3) });
            add("with a bad marker", &|x| x[3] ^= 1);
            add("with a bad block type", &|x| x[4] = 127);
        }
        for z in zoo().iter().step_by(17) { v.push((format!("zoo {} bit {} channels {}", z.info.bps, z.info.ch, z.blks[0].time), Rc2(z.bytes.clone()))); }
        v
    })
}
pub struct Rc2(Vec<u8>);
pub fn bigs() -> Vec<&'static Built> { vec![big_stream(0), big_stream(1)] }
pub fn dl_uniform(ch: &mut Ch) -> R {
    let st = streams();
    let (name, d) = &st[ch.choose(st.len())];
    let d = &d.0;
    let ws = ch.flag();
    let base = nopanic(d, || seen(&d[..], ws))?;
    for c in (1..=64).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, (cap()-1), cap(), (cap()+1)]) {
        for scr in [None, Some(0xffu8), Some(0x00), Some(0xf8)] {
            if c > 64 && c > d.len() + 1 && scr.is_none() { continue; }
            let got = nopanic(d, || { let mut s = Src::new(d).chunk(Chunk::Uniform(c)); if let Some(x) = scr { s = s.scribble(x); } seen(s, ws) })?;
            ch.exec(true);
            seen_same(&got, &base, &format!("{} in pieces of {} (rest of the buffer set to {:?})", name, c, scr), d)?;
        }
    }
    ch.state(mix(hash_bytes(1, d), ws as u64));
    ch.sample(|| format!("{} ({} bytes) in pieces of 1..64 and 14 larger sizes, unused buffer left alone, 0xff, 0, 0xf8; by {}", name, d.len(), if ws { "samples" } else { "blocks" }));
    Ok(())
}
/// All places to cut the stream into two or three reads.
pub fn dl_cuts(ch: &mut Ch) -> R {
    let st = streams();
    let i = ch.choose(if ch.quick() { 12 } else { st.len() });
    let (name, d) = &st[i];
    let d = &d.0;
    let a = ch.range(1, d.len() - 1);
    let base = nopanic(d, || seen(&d[..], false))?;
    let step = ch.t(3, 1);
    for b in std::iter::once(d.len()).chain((a + 1..d.len()).filter(|b| (b - a) < 12 || b % step == 0)) {
        let got = nopanic(d, || seen(Src::new(d).chunk(Chunk::Cuts(vec![a, b])).scribble(0xff), false))?;
        ch.exec(true);
        seen_same(&got, &base, &format!("{} delivered as {} + {} + {} bytes", name, a, b - a, d.len() - b), d)?;
    }
    ch.state(mix(hash_bytes(2, d), a as u64));
    ch.sample(|| format!("{} ({} bytes) first cut after {}, second anywhere", name, d.len(), a));
    Ok(())
}
/// Every way of splitting the bytes of one small frame or one small metadata block.
pub fn dl_compositions(ch: &mut Ch) -> R {
    let which = ch.choose(4);
    let f = |k: Kind, n: usize| quick_frame(Chan::Ind(1), 8, true, 0, &[match k { Kind::Constant => vec![5; n], _ => wave(n, 6, 0, 3) }], &[sub(k)]).unwrap();
    let hd = head(&Info { minb: 16, maxb: 32, ..Info::new(16, 1, 8, 0) }, &[(4, vorbis(b"v", &[b"a=b"]))]);
    let (pre, mid, post): (Vec<u8>, Vec<u8>, Vec<u8>) = match which {
        0 => (hd.clone(), f(Kind::Constant, 16), f(Kind::Verbatim, 2)),
        1 => (hd.clone(), f(Kind::Verbatim, 3), f(Kind::Constant, 9)),
        2 => (hd.clone(), f(Kind::Fixed(1, res0()), 6), f(Kind::Constant, 9)),
        _ => (hd[..42].to_vec(), hd[42..].to_vec(), f(Kind::Constant, 16)),
    };
    let d = [&pre[..], &mid, &post].concat();
    let base = nopanic(&d, || seen(&d[..], false))?;
    if base.obs.len() != 2 + (which < 3) as usize { panic!("composition case {:?}", base.obs) }
    let n = mid.len();
    let bits = n.min(ch.t(16, 22));
    let hi = bits / 2;
    let upper = ch.choose(1 << hi);
    for lower in 0..1usize << (bits - hi) {
        let m = upper << (bits - hi) | lower;
        let cuts: Vec<usize> = (0..bits).filter(|i| m >> i & 1 == 1).map(|i| pre.len() + i).collect();
        let got = nopanic(&d, || seen(Src::new(&d).chunk(Chunk::Cuts(cuts.clone())).scribble(0xff), false))?;
        ch.exec(true);
        seen_same(&got, &base, &format!("stream cut at {:?}", cuts), &d)?;
    }
    ch.state(mix(upper as u64, which as u64));
    ch.sample(|| format!("case {}: every subset of cut positions in {} bytes with upper half {:#x}", which, bits, upper));
    Ok(())
}
/// Every alignment of the stream to the internal buffer.
pub fn dl_align(ch: &mut Ch) -> R {
    let c = corpus();
    let i = ch.choose(5);
    let lo = cap() - c[i].bytes.len().min((cap()-8)) - 10;
    let hi = (cap()+12) - c[i].frame_offs[0].min(60);
    let pad = if ch.quick() { lo + ch.choose((hi - lo) / 2) * 2 + (i % 2) } else { ch.range(0, 2060) };
    let b = padded(&c[i], pad);
    let chunk = ch.pick(&[usize::MAX, 1, (cap()-1), (cap()+1), 1024, 300]);
    let want = expect_all(&b);
    let got = nopanic(&b.bytes, || full(Src::new(&b.bytes).chunk(Chunk::Uniform(chunk)).scribble(0xff)))?;
    ch.exec(true);
    if got.meta != Ok(meta_expect(&b)) { return violb(format!("{} with {} bytes of padding in pieces of {}: metadata {:?}", b.name, pad, chunk, got.meta), &b.bytes); }
    if got.obs != want { return violb(format!("{} with {} bytes of padding in pieces of {}: got {}, expected {}", b.name, pad, chunk, show(&got.obs), show(&want)), &b.bytes); }
    let smp = nopanic(&b.bytes, || FlacReader::new(Src::new(&b.bytes).chunk(Chunk::Uniform(chunk))).map(|r| samples(&mut r.into_samples(), 100_000)))?;
    if smp.as_ref().ok() != Some(&Smp { v: b.inter(), end: Ok(()) }) { return violb(format!("{} with {} bytes of padding in pieces of {}: samples differ", b.name, pad, chunk), &b.bytes); }
    ch.state(mix(pad as u64, (i as u64) << 32 | chunk as u64 & 0xffff));
    ch.sample(|| format!("{} with {} bytes of padding, pieces of {}", b.name, pad, chunk));
    Ok(())
}
pub fn dl_big(ch: &mut Ch) -> R {
    let b = bigs()[ch.choose(2)];
    let c = ch.range(1, ch.t(150, 2100));
    let c = if ch.quick() { [c, c + 1960, c * 13][ch.choose(3)] } else { c };
    let got = nopanic(&b.bytes, || full(Src::new(&b.bytes).chunk(Chunk::Uniform(c)).scribble(0xff)))?;
    ch.exec(true);
    if got.meta != Ok(meta_expect(b)) || got.obs != expect_all(b) { return violb(format!("{} in pieces of {}: got {}", b.name, c, show(&got.obs)), &b.bytes); }
    ch.state(mix(c as u64, b.bytes.len() as u64));
    Ok(())
}
/// A different read size every time, from a fixed repertoire.
pub fn dl_pattern(ch: &mut Ch) -> R {
    let all: Vec<&Built> = corpus().iter().take(5).chain(bigs()).collect();
    let b = all[ch.choose(all.len())];
    let pat: Vec<usize> = (0..ch.t(3, 4)).map(|_| ch.pick(&[1usize, 2, 3, 5, 1000, (cap()-2), (cap()-1), cap()])).collect();
    struct P<'a>(&'a [u8], usize, Vec<usize>);
    impl<'a> Read for P<'a> { fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { let n = buf.len().min(self.0.len()).min(self.2[self.1 % self.2.len()]); self.1 += 1; buf[..n].copy_from_slice(&self.0[..n]); for x in &mut buf[n..] { *x = 0xff; } self.0 = &self.0[n..]; Ok(n) } }
    let got = nopanic(&b.bytes, || full(P(&b.bytes, 0, pat.clone())))?;
    ch.exec(true);
    if got.meta != Ok(meta_expect(b)) || got.obs != expect_all(b) { return violb(format!("{} in pieces of {:?}, repeated: got {}", b.name, pat, show(&got.obs)), &b.bytes); }
    ch.state(mix(h(&pat), b.bytes.len() as u64));
    ch.sample(|| format!("{} in pieces of {:?} over and over", b.name, pat));
    Ok(())
}
/// Files, slices, cursors, std's buffered reader, boxed readers.
pub fn dl_entry(ch: &mut Ch) -> R {
    let st = streams();
    let i = ch.choose(st.len() + 2);
    let (name, d): (String, &[u8]) = if i < st.len() { (st[i].0.clone(), &st[i].1 .0) } else { let b = big_stream(i - st.len()); (b.name.to_string(), &b.bytes) };
    let base = nopanic(d, || seen(Src::new(d), false))?;
    let dir = std::env::temp_dir().join(format!("mc-c05-{}-{}", std::process::id(), i));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("x.flac");
    std::fs::write(&path, d).unwrap();
    let r = (|| {
        seen_same(&nopanic(d, || seen(d, false))?, &base, &format!("{} from a slice", name), d)?;
        seen_same(&nopanic(d, || seen(Cursor::new(d.to_vec()), false))?, &base, &format!("{} from a cursor", name), d)?;
        seen_same(&nopanic(d, || seen(std::fs::File::open(&path).unwrap(), false))?, &base, &format!("{} from a file", name), d)?;
        seen_same(&nopanic(d, || seen(io::BufReader::with_capacity(100, d), false))?, &base, &format!("{} from a std BufReader", name), d)?;
        seen_same(&nopanic(d, || seen(Box::new(d) as Box<dyn Read>, false))?, &base, &format!("{} from a boxed reader", name), d)?;
        let m = d.len() / 2;
        seen_same(&nopanic(d, || seen((&d[..m]).chain(&d[m..]), false))?, &base, &format!("{} from two chained slices", name), d)?;
        let mut cur = Cursor::new(d);
        seen_same(&nopanic(d, || seen(&mut cur, false))?, &base, &format!("{} from a borrowed cursor", name), d)?;
        let o = nopanic(d, || match FlacReader::open(&path) { Err(e) => Err(etext(&e)), Ok(mut r) => Ok((meta_ob(&r), drain(&mut r.blocks(), 60))) })?;
        let ok = match (&o, &base.meta) { (Err(a), Err(b)) => a == b, (Ok((m, v)), Ok(bm)) => m == bm && v[..] == base.obs[..v.len()], _ => false };
        if !ok { return violb(format!("{} through FlacReader::open: {:?}", name, o), d); }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r?;
    ch.execs(8, 8);
    ch.state(hash_bytes(3, d));
    ch.sample(|| format!("{} from slice, cursor, file, BufReader, box, chain, open", name));
    Ok(())
}
/// Bare metadata blocks and frames on every kind of byte input.
pub fn dl_inputs(ch: &mut Ch) -> R {
    let z = zoo();
    let b = &z[ch.choose(z.len())];
    let a = b.audio();
    let want = expect_all(b);
    for c in [1usize, 2, 3, 4, 5, 7, 11, 16, 31, 32, 33, cap()] {
        let mut br = BufferedReader::new(Src::new(a).chunk(Chunk::Uniform(c)).scribble(0xff));
        let got = nopanic(a, || if c % 2 == 0 { drain(&mut FrameReader::new(br), 50) } else { drain(&mut FrameReader::new(&mut br), 50) })?;
        if got != want { return violb(format!("frames in pieces of {}: got {}, expected {}", c, show(&got), show(&want)), a); }
    }
    let mut cu = Cursor::new(a);
    for (w, got) in [("cursor", nopanic(a, || drain(&mut FrameReader::new(Cursor::new(a)), 50))?), ("borrowed cursor", nopanic(a, || drain(&mut FrameReader::new(&mut cu), 50))?), ("custom input", nopanic(a, || drain(&mut FrameReader::new(SliceRb::new(a)), 50))?)] {
        if got != want { return violb(format!("frames from a {}: got {}, expected {}", w, show(&got), show(&want)), a); }
    }
    ch.execs(15, 15);
    ch.state(hash_bytes(4, a));
    Ok(())
}
pub fn c05() -> Prop {
    Prop { id: "C05", level: "model_checking",
        rule: "a case is a stream and a delivery schedule (sizes of successive reads, content of the unused buffer); metadata, blocks or samples and errors are compared with delivery in one piece, and for well-formed streams with the encoded content; distinct: (stream, schedule) up to the uniform sizes grouped in one path",
        assumptions: &["sources keep the contract of Read: a positive count until the end, zero at the end"],
        families: vec![
            fam!("uniform", "all streams (well-formed and defective) x 78 uniform read sizes x 4 contents of the unused buffer x blocks/samples", dl_uniform),
            fam!("cuts", "all pairs of cut positions (quick: second position every 3rd byte beyond 12 bytes, 12 streams)", dl_cuts),
            fam!("compositions", "all 2^16 (thorough 2^22) ways to split a small frame or metadata block", dl_compositions),
            fam!("alignment", "5 streams at every alignment to the internal buffer x 6 read sizes, blocks and samples", dl_align),
            fam!("big", "10-20 kB streams x read sizes up to 2110", dl_big),
            fam!("pattern", "repeating patterns of 3 (4) read sizes out of 8", dl_pattern),
            fam!("entry", "8 kinds of sources incl. files, all streams", dl_entry),
            fam!("inputs", "231 frame streams on 15 byte inputs", dl_inputs),
            fam!("pool", "about 2500 small frames of the pool and a second one behind each: 12 read sizes x 4 contents of the unused buffer, and a cut at every byte", p_pool::deliveries),
            fam!("direct-cuts", "metadata blocks and frames read straight from a BufferedReader, every two cuts x 4 contents of the unused buffer", p_more::direct_cuts),
            fam!("direct-calls", "three read calls on a BufferedReader x every two cuts and uniform cuts x 3 contents of the unused buffer x 3 data", p_more::direct_calls),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features x 8 deliveries", p_twise::deliveries),
            fam!("big-combinations", "9 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features", p_twise::big_deliveries),
            fam!("bulk-cuts", "data, vendor strings and comments of 13 lengths up to 70000 at 4 offsets, delivered in pieces that end at one or two places next to the ends of the item or the buffer", crate::p_fill::bulk_cuts),
            fam!("bulk-reads", "bulk reads of 13 lengths after 6 skips, delivered up to three places next to the ends and the buffer's", crate::p_fill::bulk_reads),
            fam!("files", "231 streams behind a plain file, a symbolic link, a file of an odd name and a pipe, opened by name in 2 ways", crate::p_code::files),
        ] }
}

// ------------------------------------------------------------------ C06

const KINDS: [ErrorKind; 14] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::BrokenPipe, ErrorKind::NotFound, ErrorKind::WriteZero, ErrorKind::AlreadyExists, ErrorKind::ConnectionAborted, ErrorKind::Interrupted];
pub fn is_injected(e: &io::Error, f: &Fault) -> bool {
    if f.os { e.raw_os_error() == Some(5) } else { e.kind() == f.kind && e.to_string() == MARK && e.get_ref().is_some() }
}
pub fn injected(e: &Error, f: &Fault) -> bool { match e { Error::IoError(e) => is_injected(e, f), _ => false } }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How { Blocks, NewBlocks, Samples, IntoSamples }
/// Reads a stream over a failing source, going on after the failure.
pub fn fault_check(ch: &mut Ch, b: &Built, chunk: usize, f: Fault, how: How) -> R {
    let d = &b.bytes;
    let src = Src::new(d).chunk(Chunk::Uniform(chunk)).scribble(0xff).fault(Some(f));
    let st = src.stat();
    let neutral = f.kind == ErrorKind::Interrupted && !f.os;
    if neutral && f.persistent { return Ok(()); }
    let ctx = |what: String| format!("{} in pieces of {}, read {} fails ({:?}{}{}), {:?}: {}", b.name, chunk, f.at, f.kind, if f.os { ", os error 5" } else { "" }, if f.persistent { ", persistently" } else { "" }, how, what);
    ch.exec(true);
    ch.state(mix(mix(f.at as u64, chunk as u64), mix(h(&b.bytes.len()), (f.kind as u64) << 3 | (how as u64) << 1 | f.persistent as u64)));
    let r = nopanic(d, || FlacReader::new(src))?;
    let hit = st.faults.get() > 0;
    let mut r = match r {
        Err(e) => {
            if hit && injected(&e, &f) { return Ok(()); }
            return violb(ctx(format!("construction failed with {:?}", e)), d);
        }
        Ok(r) => { if hit && !neutral { return violb(ctx("construction succeeded although a read it made failed".into()), d); } if meta_ob(&r) != meta_expect(b) { return violb(ctx("metadata differs".into()), d); } r }
    };
    // `next`: first frame that may still come. `exact`: it must come intact, no byte of it was lost.
    let mut next = 0usize;
    let mut exact = true;
    let n = b.blks.len();
    let total: usize = n + 4 + if f.persistent { 3 } else { 0 };
    match how {
        How::Blocks | How::NewBlocks => {
            let mut one = |fr: &mut FrameReader<&mut BufferedReader<Src>>| -> Result<bool, Viol> {
                let f0 = st.faults.get();
                let p0 = st.delivered.get();
                let o = nopanic(d, || fr.read_next_or_eof(vec![]))?;
                let hit = st.faults.get() > f0;
                match o {
                    Err(e) => {
                        if hit {
                            if !injected(&e, &f) { return violb(ctx(format!("a call during which the source failed returned {:?}", e)), d); }
                            // Unless all bytes delivered so far belong to earlier frames, some of this frame are gone.
                            if exact && p0 <= b.frame_offs[next] && st.delivered.get() <= b.frame_offs[next] { } else { exact = false; }
                        } else {
                            if exact { return violb(ctx(format!("frame {} failed with {:?} though no read failed and none of its bytes was lost", next, e)), d); }
                            if injected(&e, &f) { return violb(ctx("the failure was reported again although no read failed".into()), d); }
                        }
                    }
                    Ok(Some(g)) => {
                        if hit && !neutral { return violb(ctx("a call during which the source failed returned a block".into()), d); }
                        let m = (next..n).find(|&i| same(&g, &b.blks[i]).is_ok());
                        match m {
                            Some(i) if i == next || !exact => { next = i + 1; exact = true; }
                            _ => return violb(ctx(format!("got block (time {}, {} x {}), expected frame {}{}", g.time(), g.channels(), g.duration(), next, if exact { "" } else { " or a later one" })), d),
                        }
                    }
                    Ok(None) => {
                        if hit && !neutral { return violb(ctx("a call during which the source failed returned the end of the stream".into()), d); }
                        if exact && next < n { return violb(ctx(format!("end of stream reported with frame {} still to come", next)), d); }
                        if st.delivered.get() < d.len() { return violb(ctx(format!("end of stream reported after {} of {} bytes", st.delivered.get(), d.len())), d); }
                        next = n; exact = true;
                    }
                }
                Ok(false)
            };
            if how == How::Blocks { let mut fr = r.blocks(); for _ in 0..total { one(&mut fr)?; } } else { for _ in 0..total { one(&mut r.blocks())?; } }
        }
        How::Samples | How::IntoSamples => {
            let want = b.inter();
            let mut run = |it: &mut dyn Iterator<Item = claxon::Result<i32>>| -> Result<(usize, bool), Viol> {
                let mut k = 0;
                let mut err = false;
                loop {
                    let f0 = st.faults.get();
                    let o = nopanic(d, || it.next())?;
                    let hit = st.faults.get() > f0;
                    match o {
                        Some(Ok(s)) => {
                            if err { return violb(ctx("samples follow the error".into()), d); }
                            if hit && !neutral { return violb(ctx("a call during which the source failed returned a sample".into()), d); }
                            if k >= want.len() || want[k] != s { return violb(ctx(format!("sample {}: got {}, expected {:?}", k, s, want.get(k))), d); }
                            k += 1;
                        }
                        Some(Err(e)) => { if !hit || !injected(&e, &f) || err { return violb(ctx(format!("after {} samples: {:?}", k, e)), d); } err = true; }
                        None => { if hit && !neutral { return violb(ctx("a call during which the source failed returned the end".into()), d); } if !err && k < want.len() { return violb(ctx(format!("ended after {} samples", k)), d); } return Ok((k, err)); }
                    }
                }
            };
            if how == How::IntoSamples { run(&mut r.into_samples())?; }
            else {
                let (k, err) = { let mut it = r.samples(); run(&mut it)? };
                // A new iterator after a transient failure: whole frames only, from where no byte was lost.
                if err && !f.persistent {
                    let done = { let mut acc = 0; let mut i = 0; while i < n && acc < k { acc += b.blks[i].data.len(); i += 1; } i };
                    let p = st.at_fault.get(); // bytes delivered when the fault happened
                    if p <= b.frame_offs[done] {
                        let got = nopanic(d, || samples(&mut r.samples(), 100_000))?;
                        let rest: Vec<i32> = b.blks[done..].iter().flat_map(inter).collect();
                        if got.v != rest || got.end.is_err() { return violb(ctx(format!("retry after a failure at a frame boundary gave {} samples then {:?}, expected {}", got.v.len(), got.end, rest.len())), d); }
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn reads_needed(b: &Built, chunk: usize) -> usize { let c = chunk.min(cap()); (b.bytes.len() + c - 1) / c + 1 }
pub fn ft_streams(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(c.len())];
    let chunk = ch.pick(&[1usize, 2, 3, 5, 8, 13, 40, 100, usize::MAX]);
    let at = ch.choose(reads_needed(b, chunk));
    for how in [How::Blocks, How::NewBlocks, How::Samples, How::IntoSamples] {
        for persistent in [false, true] {
            for (i, &kind) in KINDS.iter().enumerate() {
                if i > 2 && i < 13 && (at + i) % 4 != 0 && ch.quick() { continue; }
                fault_check(ch, b, chunk, Fault { at, kind, persistent, os: false }, how)?;
            }
            fault_check(ch, b, chunk, Fault { at, kind: ErrorKind::Other, persistent, os: true }, how)?;
        }
    }
    heartbeat();
    ch.sample(|| format!("{} in pieces of {}: read {} fails with each of 15 errors, transiently and persistently, then reading goes on", b.name, chunk, at));
    Ok(())
}
/// Cuts chosen so that reads end exactly at item boundaries, or one byte off.
pub fn ft_zoo(ch: &mut Ch) -> R {
    let z = zoo();
    let b = &z[ch.choose(z.len())];
    for chunk in [1usize, 4, 9] {
        let lo = b.frame_offs[0] / chunk;
        for at in lo..reads_needed(b, chunk) {
            fault_check(ch, b, chunk, Fault { at, kind: ErrorKind::TimedOut, persistent: false, os: false }, How::Blocks)?;
            if at % 3 == 0 || !ch.quick() { fault_check(ch, b, chunk, Fault { at, kind: ErrorKind::UnexpectedEof, persistent: true, os: false }, How::Samples)?; }
        }
        heartbeat();
    }
    ch.sample(|| format!("{} bit {} channels, every read failing once", b.info.bps, b.info.ch));
    Ok(())
}
pub fn ft_align(ch: &mut Ch) -> R {
    let c = corpus();
    let i = ch.choose(5);
    let span = c[i].bytes.len() - c[i].frame_offs[0];
    let total = ch.choose(span + 3);
    let base = c[i].frame_offs[0] + 4;
    let b = padded(&c[i], (cap() + 2).saturating_sub(base + total));
    for how in [How::Blocks, How::NewBlocks, How::Samples] { for at in 0..reads_needed(&b, usize::MAX) { for persistent in [false, true] { fault_check(ch, &b, usize::MAX, Fault { at, kind: ErrorKind::ConnectionReset, persistent, os: false }, how)?; } } }
    ch.sample(|| format!("{} with its first frame at {}: each buffer refill failing", b.name, b.frame_offs[0]));
    Ok(())
}
pub fn ft_big(ch: &mut Ch) -> R {
    let b = bigs()[ch.choose(2)];
    let chunk = ch.pick(&[usize::MAX, (cap()-1), 1000, 333]);
    let at = ch.choose(reads_needed(b, chunk));
    for how in [How::Blocks, How::NewBlocks, How::Samples, How::IntoSamples] { for persistent in [false, true] { for kind in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::Interrupted] { fault_check(ch, b, chunk, Fault { at, kind, persistent, os: false }, how)?; } } }
    Ok(())
}
/// Byte-level operations over a failing source, retried, against the queue model.
pub fn ft_bytes(ch: &mut Ch) -> R {
    const OPS: [Op; 12] = [Op::U8, Op::U8e, Op::Be16, Op::Be16e, Op::Be24, Op::Be32, Op::Le32, Op::Into(1), Op::Into(3), Op::Into(7), Op::Skip(1), Op::Skip(4)];
    let n = ch.pick(&[6usize, 11]);
    let d: Vec<u8> = (0..n).map(|i| (i * 29 + 0x83) as u8).collect();
    let chunk = ch.pick(&[1usize, 2, 3, usize::MAX]);
    let at = ch.range(0, if chunk == usize::MAX { 2 } else { n / chunk + 1 });
    let times = ch.range(1, 2);
    let ops: Vec<Op> = (0..ch.t(3, 4)).map(|_| ch.pick(&OPS)).collect();
    bytes_run(ch, &d, 0, chunk, at, times, &ops)?;
    ch.sample(|| format!("{} bytes in pieces of {}, reads {}..{} fail, {:?} with retries", n, chunk, at, at + times, ops));
    Ok(())
}
pub fn ft_bytes_big(ch: &mut Ch) -> R {
    let c = cap();
    let sops = [Op::U8, Op::U8e, Op::Be16, Op::Be16e, Op::Be24, Op::Be32, Op::Le32, Op::Into(2), Op::Into(c - 1), Op::Into(c + 1), Op::Skip(3), Op::Skip(c as u32 - 1), Op::Skip(c as u32), Op::Skip(2 * c as u32 + 1)];
    let d: Vec<u8> = (0..2 * cap() + 904).map(|i| (i * 7 + (i >> 8) * 13 + 0x83) as u8).collect();
    let pre = ch.pick(&[0usize, (cap()-5), (cap()-4), (cap()-3), (cap()-2), (cap()-1), cap(), (cap()+1), (2*cap()-2), (2*cap()-1), 2*cap()]);
    let chunk = ch.pick(&[usize::MAX, (cap()-1), 1000]);
    let at = ch.range(0, 5);
    let ops: Vec<Op> = (0..2).map(|_| ch.pick(&sops)).collect();
    bytes_run(ch, &d, pre, chunk, at, 1, &ops)
}
struct Flaky<'a> { d: &'a [u8], pos: usize, chunk: usize, reads: usize, at: usize, times: usize, hit: usize, st: Rc<std::cell::Cell<(usize, usize)>> }
impl<'a> Read for Flaky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let i = self.reads; self.reads += 1;
        if i >= self.at && i < self.at + self.times { self.hit += 1; self.st.set((self.pos, self.hit)); for x in buf.iter_mut() { *x = 0xff } return Err(io::Error::new(ErrorKind::TimedOut, MARK)); }
        let n = buf.len().min(self.chunk).min(self.d.len() - self.pos);
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        for x in &mut buf[n..] { *x = 0xff; }
        self.pos += n; self.st.set((self.pos, self.hit));
        Ok(n)
    }
}
pub fn bytes_run(ch: &mut Ch, d: &[u8], pre: usize, chunk: usize, at: usize, times: usize, ops: &[Op]) -> R {
    let st = Rc::new(std::cell::Cell::new((0, 0)));
    let mut r = BufferedReader::new(Flaky { d, pos: 0, chunk, reads: 0, at, times, hit: 0, st: st.clone() });
    let mut pos: Vec<usize> = vec![0];
    let mut todo: Vec<Op> = if pre > 0 { vec![Op::Skip(pre as u32)] } else { vec![] };
    todo.extend(ops);
    let mut i = 0;
    let mut tries = 0;
    ch.exec(true);
    while i < todo.len() {
        let o = todo[i];
        let h0 = st.get().1;
        let g = nopanic(d, || apply(&mut r, o))?;
        let (delivered, h1) = st.get();
        let p8 = pos[..pos.len().min(8)].to_vec();
        let ctx = |m: String| format!("{} bytes in pieces of {}, reads {}..{} fail; {:?}, at call {} (possible positions {:?}): {}", d.len(), chunk, at, at + times, todo, i, p8, m);
        ch.steps(1);
        ch.state(mix(mix(pos[0] as u64, h1 as u64 | (pos.len() as u64) << 8), mix(width(o) as u64 | (at as u64) << 32, chunk as u64)));
        match g {
            Err(e) if h1 > h0 => {
                if e.kind() != ErrorKind::TimedOut || e.to_string() != MARK { return violb(ctx(format!("source failure came out as {:?}", e)), d); }
                // The failed call consumed something between nothing and all that was delivered; a single-byte call nothing.
                let hi = delivered;
                let lo = pos[0];
                pos = if width(o) == 1 { pos.clone() } else { (lo..=hi.max(lo)).collect() };
                tries += 1;
                if tries > 6 { return violb(ctx("keeps failing".into()), d); }
                // retry the same call
                continue;
            }
            _ if h1 > h0 => return violb(ctx(format!("a call during which the source failed returned {:?}", g)), d),
            Err(e) => {
                if e.kind() != ErrorKind::UnexpectedEof { return violb(ctx(format!("unexpected {:?}", e)), d); }
                if pos.iter().all(|&p| value(d, p, o).is_some() || matches!(o, Op::U8e | Op::Be16e) && p == d.len()) { return violb(ctx(format!("end of input reported with {} bytes left", d.len() - pos[0])), d); }
                return Ok(());
            }
            Ok(Out::None) => { if !pos.contains(&d.len()) { return violb(ctx("end reported early".into()), d); } pos = vec![d.len()]; }
            Ok(v) => {
                let next: Vec<usize> = pos.iter().filter(|&&p| value(d, p, o).as_ref() == Some(&v)).map(|&p| p + width(o)).collect();
                if next.is_empty() { return violb(ctx(format!("returned {:?}", match v { Out::Bytes(b) => Out::Bytes(b[..b.len().min(12)].to_vec()), v => v })), d); }
                pos = next;
            }
        }
        i += 1;
    }
    Ok(())
}
/// Failures while reading metadata through the block functions.
pub fn ft_meta(ch: &mut Ch) -> R {
    let bodies: Vec<(u8, Vec<u8>)> = vec![(0, Info::new(4096, 2, 16, 99).bytes()), (1, vec![0; 9]), (2, b"abcdefgh".to_vec()), (3, vec![0xff; 18]), (4, vorbis(b"v", &[b"a=b", b"", b"cc=dd"])), (6, vec![3; 40]), (99, vec![4; 5]), (1, vec![0; 2100]), (2, vec![9; 2100])];
    let (ty, body) = bodies[ch.choose(bodies.len())].clone();
    let d = block(true, ty, &body);
    let chunk = ch.pick(&[1usize, 2, 3, 7, 1000]);
    let at = ch.choose((d.len() + chunk - 1) / chunk);
    for &kind in &KINDS[..13] {
        let f = Fault { at, kind, persistent: false, os: false };
        let s = Src::new(&d).chunk(Chunk::Uniform(chunk)).fault(Some(f));
        let st = s.stat();
        let mut it = MetadataBlockReader::new(BufferedReader::new(s));
        let a = nopanic(&d, || it.next())?;
        if st.faults.get() == 0 { continue; }
        match a { Some(Err(ref e)) if injected(e, &f) => {} a => return violb(format!("metadata block {} with read {} failing ({:?}): iterator gave {:?}", ty, at, kind, a.map(|r| r.map(|_| "a block").map_err(|e| format!("{:?}", e)))), &d) }
        let r0 = st.reads.get();
        for _ in 0..3 { if nopanic(&d, || it.next().is_some())? { return violb(format!("metadata block {}: iterator goes on after the source failed", ty), &d); } }
        if st.reads.get() != r0 { return violb("the block iterator reads on after a failure", &d); }
        let s = Src::new(&d).chunk(Chunk::Uniform(chunk)).fault(Some(f));
        match nopanic(&d, || metadata::read_metadata_block_with_header(&mut BufferedReader::new(s)))? { Err(ref e) if injected(e, &f) => {} r => return violb(format!("metadata block {} with read {} failing ({:?}): {:?}", ty, at, kind, r.map(|_| "a block")), &d) }
        ch.execs(2, 2);
    }
    ch.state(mix(ty as u64 | (body.len() as u64) << 8, (at as u64) << 20 | chunk as u64));
    ch.sample(|| format!("metadata block type {} of {} bytes, pieces of {}, read {} fails", ty, body.len(), chunk, at));
    Ok(())
}
pub fn c06() -> Prop {
    Prop { id: "C06", level: "fault_enumeration",
        rule: "a case is a stream, a read size, the index of the failing read, the error, whether it persists, and how the client goes on; every call's answer is compared with what the calls to the source during it imply; distinct: those coordinates",
        assumptions: &["an Interrupted error may be retried internally or surfaced", "a call that failed after consuming part of a multi-byte item may have consumed any number of the bytes delivered until then"],
        families: vec![
            fam!("streams", "6 streams x 9 read sizes x every read x 15 errors (quick: 6 on average) x transient/persistent x 4 continuations", ft_streams),
            fam!("kinds", "231 streams, every subframe kind and channel assignment, every read of the audio failing, 3 read sizes", ft_zoo),
            fam!("alignment", "5 streams at every alignment to the internal buffer, every refill failing", ft_align),
            fam!("big", "two larger streams x 4 read sizes x every read x 3 errors", ft_big),
            fam!("bytes", "all sequences of 3 (4) byte-level calls with retry x read sizes x failing reads", ft_bytes),
            fam!("bytes-buffer", "pairs of byte-level calls across the internal buffer's boundary x failing reads", ft_bytes_big),
            fam!("metadata", "9 metadata blocks x 5 read sizes x every read x 13 errors", ft_meta),
            fam!("pool", "about 2500 small frames of the pool and a second one behind each: every read of the audio failing x 2 read sizes, errors and interfaces in rotation", p_pool::faults),
            fam!("combinations", "base frames with every single changed feature x failure at every byte (of long frames the first 30, the last 4 and 60 or 400 others) x 4 kinds of error", p_twise::faults),
            fam!("many-failures", "5 streams x every frame x 1 to 65537 (23 numbers) failures in a row before it, and the same on byte reads", crate::p_hist::many_failures),
            fam!("causes", "20 kinds of error in 5 forms at every byte of 5 streams, through 7 entry points: kind, inner error, cause, text", crate::p_fill::causes),
        ] }
}

// ------------------------------------------------------------------ C22

const K_AFTER: usize = 40;
/// Defects that make frame j fail; the rest of the stream stays well-formed.
pub fn defects(b: &Built, j: usize) -> Vec<(String, Vec<u8>)> {
    let (s, e) = (b.frame_offs[j], b.frame_offs[j + 1]);
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |n: String, x: Vec<u8>| v.push((n, x));
    for i in s..e { for m in [0x01u8, 0x80, 0xff] { let mut x = b.bytes.clone(); x[i] ^= m; add(format!("byte {} of frame {} xor {:#x}", i - s, j, m), x); } }
    for i in s + 1..e { add(format!("cut {} bytes into frame {}", i - s, j), b.bytes[..i].to_vec()); }
    for i in (s + 1..e).step_by(3) { let mut x = b.bytes[..i].to_vec(); x.extend(&b.bytes[e..]); add(format!("frame {} loses its bytes from {}", j, i - s), x); }
    for (n, ins) in [("zero byte", vec![0u8]), ("0xff", vec![0xff]), ("a tag", b"TAG....".to_vec()), ("a metadata-like block", vec![4, 0, 0, 0])] { let mut x = b.bytes[..s].to_vec(); x.extend(ins); x.extend(&b.bytes[s..]); add(format!("{} before frame {}", n, j), x); }
    // unsupported: sample size left to the stream info, header checksum repaired
    { let mut x = b.bytes.clone(); let hl = crate::refdec::header(&x[s..e]).map(|h| h.len).unwrap_or(6); x[s + 3] &= 0xf1; let c = crc8(&x[s..s + hl - 1]); x[s + hl - 1] = c; add(format!("frame {} without a sample size", j), x); }
    v
}
/// `want`: the samples before the defect. (What a damaged frame with matching checksums holds is not the point here.)
pub fn once_only(ch: &mut Ch, d: &[u8], name: &str, fault: Option<Fault>, chunk: usize, owning: bool, want: &[i32]) -> R {
    let src = Src::new(d).chunk(Chunk::Uniform(chunk)).scribble(0xff).fault(fault);
    let r = nopanic(d, || FlacReader::new(src))?;
    let mut r = match r { Ok(r) => r, Err(_) => return Ok(()) };
    ch.exec(true);
    let mut run = |it: &mut dyn Iterator<Item = claxon::Result<i32>>| -> R {
        let mut k = 0usize;
        loop {
            let sh = it.size_hint();
            match nopanic(d, || it.next())? {
                Some(Ok(s)) => { if sh.1 == Some(0) { return violb(format!("{}: size hint {:?} but another sample came", name, sh), d); } if k < want.len() && want[k] != s { return violb(format!("{}: sample {} is {}, expected {:?}", name, k, s, want.get(k)), d); } k += 1; if k > 1_000_000 { return violb(format!("{}: does not end", name), d); } }
                o => {
                    if let (Some(_), Some(0)) = (&o, sh.1) { return violb(format!("{}: size hint {:?} but another item came", name, sh), d); }
                    let errd = o.is_some();
                    if !errd && k < want.len() { return violb(format!("{}: ended after {} of {} samples", name, k, want.len()), d); }
                    for i in 0..K_AFTER {
                        let sh = it.size_hint();
                        if sh.0 > 0 { return violb(format!("{}: size hint {:?} after the last item", name, sh), d); }
                        if let Some(x) = nopanic(d, || it.next())? { return violb(format!("{}: after {} samples and {}, call {} returned {:?}", name, k, if errd { "an error" } else { "the end" }, i, x.map_err(|e| format!("{:?}", e))), d); }
                    }
                    return Ok(());
                }
            }
        }
    };
    if owning { run(&mut r.into_samples()) } else { let mut it = r.samples(); run(&mut it) }
}
pub fn st_defects(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(5)];
    let j = ch.choose(b.blks.len());
    let ds = defects(b, j);
    let part = ch.choose(8);
    let want: Vec<i32> = b.blks[..j].iter().flat_map(inter).collect();
    for (i, (name, d)) in ds.iter().enumerate().filter(|(i, _)| i % 8 == part) {
        for owning in [false, true] { for chunk in if ch.quick() { vec![[usize::MAX, 1, 17][i / 8 % 3]] } else { vec![usize::MAX, 1, 17, 200] } { once_only(ch, d, &format!("{} {}", b.name, name), None, chunk, owning, &want)?; } }
        ch.state(hash_bytes(0, d));
        heartbeat();
    }
    ch.sample(|| format!("{}: {} defects in frame {}, both sample iterators, {} calls beyond", b.name, ds.len(), j, K_AFTER));
    Ok(())
}
pub fn st_zoo(ch: &mut Ch) -> R {
    let z = zoo();
    let b = &z[ch.choose(z.len())];
    for j in 0..2 { let want: Vec<i32> = b.blks[..j].iter().flat_map(inter).collect(); for (name, d) in defects(b, j).iter().step_by(ch.t(7, 2)) { once_only(ch, d, &format!("zoo {}", name), None, usize::MAX, j == 0, &want)?; ch.state(hash_bytes(0, d)); } heartbeat(); }
    Ok(())
}
pub fn st_faults(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(c.len())];
    let chunk = ch.pick(&[1usize, 3, 8, 40, usize::MAX]);
    let at = ch.choose(reads_needed(b, chunk));
    let want = b.inter();
    for owning in [false, true] { for kind in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::TimedOut] { once_only(ch, &b.bytes, &format!("{} with read {} failing ({:?})", b.name, at, kind), Some(Fault { at, kind, persistent: false, os: false }), chunk, owning, &want)?; } }
    ch.state(mix(at as u64, chunk as u64 ^ h(&b.bytes.len())));
    ch.sample(|| format!("{} in pieces of {}, read {} fails once, both sample iterators, {} calls beyond", b.name, chunk, at, K_AFTER));
    Ok(())
}
/// A defect at the first frame read by an iterator made after others were used.
pub fn st_sequences(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(5)];
    let j = ch.choose(b.blks.len());
    let mut d = b.bytes.clone();
    let e = b.frame_offs[j + 1];
    d[e - 1] ^= 0x20;
    // frames before j are read in some other way first
    let before = ch.choose(j + 1);
    let how = ch.choose(2);
    let mut r = nopanic(&d, || FlacReader::new(&d[..]))?.map_err(|e| Viol { msg: format!("{:?}", e), bytes: d.clone(), fingerprint: String::new() })?;
    for i in 0..before {
        if how == 0 { let ok = nopanic(&d, || matches!(r.blocks().read_next_or_eof(vec![]), Ok(Some(_))))?; if !ok { return violb(format!("{}: good frame {} not delivered", b.name, i), &d); } }
        else { let n = b.blks[i].data.len(); let got = nopanic(&d, || r.samples().take(n).filter(|x| x.is_ok()).count())?; if got != n { return violb(format!("{}: good frame {} not delivered", b.name, i), &d); } }
    }
    let mut it = r.samples();
    let mut good = 0;
    let mut errs = 0;
    for _ in 0..20_000 { match nopanic(&d, || it.next())? { Some(Ok(_)) => { if errs > 0 { return violb(format!("{}: samples after an error", b.name), &d); } good += 1 } Some(Err(_)) => errs += 1, None => if errs > 0 || good > 10_000 { break } } if errs > 1 { break; } }
    let want: usize = b.blks[before..j].iter().map(|x| x.data.len()).sum();
    if errs != 1 || good != want { return violb(format!("{}: frame {} damaged, {} frames read before: {} errors after {} samples, expected 1 after {}", b.name, j, before, errs, good, want), &d); }
    for _ in 0..K_AFTER { if nopanic(&d, || it.next().is_some())? { return violb(format!("{}: something after the error", b.name), &d); } }
    ch.exec(true);
    ch.state(mix(h(&d), before as u64 * 2 + how as u64));
    ch.sample(|| format!("{}: frame {} damaged, {} frames read before", b.name, j, before));
    Ok(())
}
/// The end stays the end.
pub fn st_end(ch: &mut Ch) -> R {
    let c = corpus();
    let z = zoo();
    let i = ch.choose(c.len() + z.len());
    let b = if i < c.len() { &c[i] } else { &z[i - c.len()] };
    let chunk = ch.pick(&[usize::MAX, 1, 7]);
    let d = &b.bytes;
    let open = || FlacReader::new(Src::new(d).chunk(Chunk::Uniform(chunk)).scribble(0xff));
    let n = b.blks.len();
    ch.execs(5, 5);
    {
        let mut r = nopanic(d, || open())?.unwrap();
        { let mut fr = r.blocks(); for k in 0..n + K_AFTER { let o = nopanic(d, || next(&mut fr, vec![]))?; if (k < n && !matches!(o, Ob::Blk(_))) || (k >= n && o != Ob::End) { return violb(format!("{}: call {} of blocks() gave {}, the stream has {} frames", b.name, k, o.short(), n), d); } } }
        for _ in 0..3 { let o = nopanic(d, || next(&mut r.blocks(), vec![1, 2, 3]))?; if o != Ob::End { return violb(format!("{}: a new frame reader at the end gave {}", b.name, o.short()), d); } }
        for _ in 0..3 { if let Some(x) = nopanic(d, || r.samples().next())? { return violb(format!("{}: a new sample iterator at the end gave {:?}", b.name, x.is_ok()), d); } }
        if nopanic(d, || r.into_samples().next().is_some())? { return violb(format!("{}: an owning sample iterator at the end gave something", b.name), d); }
    }
    let want = b.inter();
    once_only(ch, d, b.name, None, chunk, false, &want)?;
    once_only(ch, d, b.name, None, chunk, true, &want)?;
    let a = b.audio();
    let mut fr = FrameReader::new(Cursor::new(a));
    for k in 0..n + K_AFTER { let o = nopanic(d, || next(&mut fr, vec![]))?; if (k < n && !matches!(o, Ob::Blk(_))) || (k >= n && o != Ob::End) { return violb(format!("{}: call {} on a cursor gave {}", b.name, k, o.short()), d); } }
    ch.state(mix(hash_bytes(9, d), chunk as u64));
    Ok(())
}
/// The metadata block iterator: sequences of good and bad blocks.
pub fn st_meta(ch: &mut Ch) -> R {
    // 0..5 good, 6.. bad
    let item = |k: usize, last: bool| -> Vec<u8> { match k {
        0 => block(last, 0, &Info::new(16, 1, 8, 5).bytes()), 1 => block(last, 1, &[0; 3]), 2 => block(last, 2, b"abcdef"), 3 => block(last, 4, &vorbis(b"v", &[b"a=b"])), 4 => block(last, 70, &[1, 2]), 5 => block(last, 6, &[]),
        6 => block(last, 127, &[]), 7 => block(last, 0, &[0; 33]), 8 => block(last, 2, &[1]), 9 => block(last, 4, &[9; 12]), 10 => { let mut b = block(last, 4, &[]); b[1] = 0xff; b } _ => block(last, 0, &[0; 34]) } };
    let len = ch.range(1, ch.t(4, 5));
    let seq: Vec<usize> = (0..len).map(|_| ch.choose(12)).collect();
    let lastat = ch.range(0, len); // len: none marked last
    let cut = ch.flag(); // drop the final byte
    let mut d = vec![];
    for (i, &k) in seq.iter().enumerate() { d.extend(item(k, i == lastat)); }
    if cut { d.pop(); }
    let fin = seq.iter().position(|&k| k >= 6).map_or(usize::MAX, |i| i);
    // good blocks before the first bad / last / end of data
    let whole = if cut { len - 1 } else { len };
    let good = whole.min(fin).min(if lastat < len { lastat + 1 } else { usize::MAX });
    let err = !(lastat < len && good == lastat + 1);
    for which in 0..3 {
        let (mut a, mut b, mut c);
        let it: &mut dyn Iterator<Item = claxon::Result<MetadataBlock>> = match which { 0 => { a = MetadataBlockReader::new(Cursor::new(&d[..])); &mut a } 1 => { b = MetadataBlockReader::new(BufferedReader::new(Src::new(&d).chunk(Chunk::Uniform(2)))); &mut b } _ => { c = MetadataBlockReader::new(SliceRb::new(&d)); &mut c } };
        for k in 0..good + K_AFTER {
            let left = if k < good { good - k + err as usize } else if k == good && err { 1 } else { 0 };
            let sh = it.size_hint();
            if sh.0 > left || sh.1.map_or(false, |u| u < left) { return violb(format!("blocks {:?} last {}: size hint {:?} with {} items left", seq, lastat, sh, left), &d); }
            let o = nopanic(&d, || it.next())?;
            let ok = match &o { Some(Ok(_)) => k < good, Some(Err(_)) => k == good && err, None => k >= good + err as usize };
            if !ok { return violb(format!("blocks {:?} (last flag at {}, cut {}): item {} is {:?}, expected {} blocks{}", seq, lastat, cut, k, o.map(|r| r.is_ok()), good, if err { " and an error" } else { "" }), &d); }
        }
    }
    ch.execs(3, 3);
    ch.state(hash_bytes(5, &d));
    ch.sample(|| format!("blocks {:?}, last flag at {}, cut {}: {} good{}", seq, lastat, cut, good, if err { ", then one error" } else { "" }));
    Ok(())
}
pub fn c22() -> Prop {
    Prop { id: "C22", level: "model_checking",
        rule: "a case is a stream with a defect (or a failing read, or none) at a position and an interface; the iterator is driven 40 calls beyond its first error or end; distinct: stream bytes",
        assumptions: &["the source keeps reporting its end once it has done so"],
        families: vec![
            fam!("defects", "5 streams, every byte of every frame damaged 3 ways, every cut, removals, insertions, unsupported: both sample iterators", st_defects),
            fam!("kinds", "231 streams, every 7th (2nd) of those defects in two frames", st_zoo),
            fam!("faults", "6 streams x 5 read sizes x every read failing once with 5 errors", st_faults),
            fam!("sequences", "a damaged frame met by an iterator created after other reading", st_sequences),
            fam!("end", "237 streams x 3 read sizes: all interfaces at the end", st_end),
            fam!("metadata", "all sequences of up to 4 (5) of 12 good and bad metadata blocks x position of the last flag x final byte missing", st_meta),
            fam!("pool", "about 2500 small frames of the pool and a second one behind each: every byte damaged, every cut, iterators in rotation", p_pool::after_defects),
            fam!("long-after", "5 streams x 4 defects x 4 interfaces: 70000 (2^20) calls after the end or the error", crate::p_hist::long_after),
            fam!("iterator-calls", "5 streams x every frame x 4 defects x 2 sample iterators: all sequences of 2 (3) of 21 calls and one of 13 ending ones, against a list that ends in the error", crate::p_iter::broken_calls),
        ] }
}
