//! C07, C08, C17, C20, C21: what the client brings and sees: buffers, call orders, memory, other readers, demand.
use crate::common::*;
use crate::enc::*;
use crate::p_twise;
use crate::engine::*;
use crate::fam;
use crate::p_more;
use crate::p_steps;
use crate::p_pool;
use crate::refdec;
use crate::src::*;
use claxon::frame::{Block, FrameReader};
use claxon::input::{Bitstream, BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::{Error, FlacReader};
use std::cell::{Cell, RefCell};
use std::io::{self, Cursor, Read};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

// ------------------------------------------------------------------ C07

const FILLS: [i32; 4] = [0x2a2a_2a2a, i32::MIN, -1, i32::MAX];
/// A vector of `len` elements with room for `cap`; the spare room holds `fill` too.
pub fn vec_of(len: usize, cap: usize, fill: i32) -> Vec<i32> {
    let mut v = Vec::with_capacity(cap.max(len));
    v.resize(cap.max(len), fill);
    v.truncate(len);
    v
}
/// Result of reading one frame, errors with their text.
pub fn one(d: &[u8], buf: Vec<i32>) -> Result<Option<Blk>, String> {
    match FrameReader::new(SliceRb::new(d)).read_next_or_eof(buf) { Ok(b) => Ok(b.as_ref().map(blk)), Err(e) => Err(format!("{:?}", e)) }
}
pub fn diff(a: &Result<Option<Blk>, String>, b: &Result<Option<Blk>, String>) -> String {
    if let (Ok(Some(x)), Ok(Some(y))) = (a, b) { for i in 0..x.data.len().min(y.data.len()) { if x.data[i] != y.data[i] { return format!("element {} is {} or {}", i, x.data[i], y.data[i]); } } return format!("time {} x {} or {} x {}", x.time, x.dur, y.time, y.dur); }
    format!("{:?} or {:?}", a.as_ref().map(|x| x.is_some()), b.as_ref().map(|x| x.is_some()))
}
pub fn bf_lengths(ch: &mut Ch) -> R {
    let z = zoo();
    let b = &z[ch.choose(z.len())];
    let fi = ch.choose(3);
    let d = &b.bytes[b.frame_offs[fi]..b.frame_offs[fi + 1]];
    let w = &b.blks[fi];
    let n = w.data.len();
    for len in [0, 1, 2, n / 2, n - 1, n, n + 1, n + 7, 2 * n, 9 * n + 100] { for cap in [0, n - 1, n, n + 1, 3 * n + 50] { for fill in FILLS {
        let r = nopanic(d, || FrameReader::new(SliceRb::new(d)).read_next_or_eof(vec_of(len, cap, fill)))?;
        ch.exec(true);
        match r { Ok(Some(g)) => if let Err(m) = same(&g, w) { return violb(format!("buffer of length {} capacity {} filled with {}: {}", len, cap.max(len), fill, m), d); }, r => return violb(format!("buffer of length {} capacity {}: {:?}", len, cap.max(len), r.map(|x| x.is_some())), d) }
    } } }
    ch.state(hash_bytes(0, d));
    ch.sample(|| format!("frame of {} samples, {} bit: 10 lengths x 5 capacities x 4 contents", n, b.info.bps));
    Ok(())
}
/// Frames of different shapes, the buffer handed on, replaced or soiled between them.
pub fn bf_sequences(ch: &mut Ch) -> R {
    static F: std::sync::OnceLock<Vec<(Vec<u8>, Blk)>> = std::sync::OnceLock::new();
    let fs = F.get_or_init(|| {
        let z = zoo();
        let mut v: Vec<(Vec<u8>, Blk)> = vec![];
        for (i, fi) in [(3usize, 0usize), (8, 1), (25, 0), (47, 2), (77, 0), (112, 1), (150, 0), (171, 1), (209, 0)] { let b = &z[i]; v.push((b.bytes[b.frame_offs[fi]..b.frame_offs[fi + 1]].to_vec(), b.blks[fi].clone())); }
        v
    });
    let k = ch.t(3, 4);
    let seq: Vec<usize> = (0..k).map(|_| ch.choose(fs.len())).collect();
    let pol: Vec<usize> = (0..k).map(|_| ch.choose(4)).collect();
    let d: Vec<u8> = seq.iter().flat_map(|&i| fs[i].0.iter().cloned()).collect();
    let mut rd = FrameReader::new(BufferedReader::new(&d[..]));
    let mut buf: Vec<i32> = vec![];
    for (j, &i) in seq.iter().enumerate() {
        match pol[j] { 0 => {} 1 => buf = vec![], 2 => { for x in buf.iter_mut() { *x = !*x; } } _ => { let c = buf.capacity(); buf = vec_of(c / 2, c, 77) } }
        let r = nopanic(&d, || rd.read_next_or_eof(buf))?;
        match r { Ok(Some(g)) => { if let Err(m) = same(&g, &fs[i].1) { return violb(format!("frames {:?}, buffer policies {:?}, frame {}: {}", seq, pol, j, m), &d); } buf = g.into_buffer(); } r => return violb(format!("frames {:?}, frame {}: {:?}", seq, j, r.map(|x| x.is_some())), &d) }
    }
    ch.exec(true);
    ch.state(mix(h(&seq), h(&pol)));
    ch.sample(|| format!("frames {:?} with buffer policies {:?} (handed on, fresh, inverted, shortened)", seq, pol));
    Ok(())
}
/// Buffers left over from a failed frame do not matter either: the buffer is lost, a new one is used, results are the same.
pub fn bf_damaged(ch: &mut Ch) -> R {
    let z = zoo();
    let b = &z[ch.choose(z.len())];
    let fi = ch.choose(2);
    let f = &b.bytes[b.frame_offs[fi]..b.frame_offs[fi + 1]];
    let hl = refdec::header(f).unwrap().len;
    let n = f.len() * 8;
    let mut d = f.to_vec();
    let mut ok = 0u64;
    let mut tot = 0u64;
    for i in hl * 8..n - 16 {
        let js: Vec<usize> = if ch.quick() { vec![i, i + 1, i + 5] } else { (i..(i + 12).min(n - 16)).collect() };
        for j in js {
            if j >= n - 16 { continue; }
            d.copy_from_slice(f);
            d[i / 8] ^= 128 >> (i % 8);
            if j != i { d[j / 8] ^= 128 >> (j % 8); }
            // make the checksum match wherever the damaged frame now ends
            let e = match refdec::frame_end(&d) { Some(e) if e + 2 <= d.len() => e, _ => d.len() - 2 };
            let c = crc16(&d[..e]);
            d[e..e + 2].copy_from_slice(&c.to_be_bytes());
            let a = nopanic(&d, || one(&d, vec_of(70_000, 70_000, 0x2a2a_2a2a)))?;
            let z = nopanic(&d, || one(&d, vec_of(70_000, 70_000, i32::MIN + 5)))?;
            tot += 2;
            if a != z { return violb(format!("bits {} and {} flipped: the result depends on the buffer: {}", i, j, diff(&a, &z)), &d); }
            if a.is_ok() { ok += 2; }
        }
        heartbeat();
    }
    ch.execs(tot, ok);
    ch.state(hash_bytes(1, f));
    ch.sample(|| format!("{} bit {} channel frame of {} bytes: bit changes behind the header with a repaired checksum, {} of {} readings delivered", b.info.bps, b.info.ch, f.len(), ok, tot));
    Ok(())
}
/// All short subframe bit patterns, decoded directly over two different fillings.
pub fn bf_subframes(ch: &mut Ch) -> R {
    let ty = ch.choose(256) as u64;
    let bps = ch.pick(&[8u32, 16, 24]);
    let mut any = 0u64;
    let mut tot = 0u64;
    for bs in [1usize, 2, 3, 4, 5, 8, 16, 17, 31, 32, 33, 48, 64] {
        for mid in 0..ch.t(256u64, 1024) {
            for fill in [0xffu8, 0x5b, 0x92] {
                let mut w = BitW::new();
                w.put(ty, 8); w.put(mid, ch.t(8, 10));
                let mut bits = w.v.clone();
                bits.resize(60 + bs * 5, fill);
                let mut run = |f: i32| -> Result<(Result<(), String>, Vec<i32>), Viol> {
                    let mut buf = vec![f; bs];
                    let r = nopanic(&bits, || { let mut c = SliceRb::new(&bits); let mut s = Bitstream::new(&mut c); claxon::subframe::decode(&mut s, bps, &mut buf) })?;
                    Ok((r.map_err(|e| format!("{:?}", e)), buf))
                };
                let a = run(0x2a2a_2a2a)?;
                let b = run(i32::MIN + 5)?;
                tot += 2;
                if a.0 != b.0 { return violb(format!("subframe in a {} bit block of {}: {:?} or {:?} depending on the buffer", bps, bs, a.0, b.0), &bits); }
                if a.0.is_ok() { any += 2; if a.1 != b.1 { let i = (0..bs).find(|&i| a.1[i] != b.1[i]).unwrap(); return violb(format!("subframe in a {} bit block of {}: sample {} is {} or {} depending on the buffer", bps, bs, i, a.1[i], b.1[i]), &bits); } }
            }
        }
        heartbeat();
    }
    ch.execs(tot, any);
    ch.state(mix(ty, bps as u64));
    ch.sample(|| format!("subframe header {:#x}, {} bit: 13 block sizes x all next bytes x 3 continuations: {} of {} accepted", ty, bps, any, tot));
    Ok(())
}
/// Fresh memory filled with two different bytes: nothing may change.
pub fn bf_poison_frames(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).collect();
    let b = c[ch.choose(c.len())];
    let chunk = ch.pick(&[usize::MAX, 1, 33]);
    let d = &b.bytes;
    let run = |p: u8| nopanic(d, || poison(p, || (full(Src::new(d).chunk(Chunk::Uniform(chunk))), FlacReader::new(&d[..]).map(|r| samples(&mut r.into_samples(), 1 << 20)).map_err(|e| format!("{:?}", e)))));
    let a = run(0xAA)?;
    let z = run(0x55)?;
    ch.execs(2, 2);
    ch.state(mix(hash_bytes(3, d), chunk as u64));
    if a != z { return violb(format!("{}: results depend on the content of fresh memory: {} or {}", b.name, show(&a.0.obs), show(&z.0.obs)), d); }
    if a.0.meta != Ok(meta_expect(b)) || a.0.obs != expect_all(b) { return violb(format!("{} with fresh memory filled with 0xaa: got {}", b.name, show(&a.0.obs)), d); }
    if a.1.as_ref().ok().map(|s| &s.v) != Some(&b.inter()) { return violb(format!("{} with fresh memory filled with 0xaa: samples differ", b.name), d); }
    Ok(())
}
pub fn mb_text(r: &claxon::Result<MetadataBlock>) -> String {
    match r {
        Err(e) => format!("{:?}", e),
        Ok(MetadataBlock::VorbisComment(v)) => format!("vc {:?} {:?}", v.vendor, v.comments),
        Ok(MetadataBlock::Application { id, data }) => format!("app {} {:?}", id, data),
        Ok(MetadataBlock::StreamInfo(i)) => format!("info {:?}", info_ob(i)),
        Ok(MetadataBlock::Padding { length }) => format!("padding {}", length),
        Ok(_) => "other".into(),
    }
}
/// Metadata with matching, too small and too large declared lengths, cut short, in pieces.
pub fn bf_poison_meta(ch: &mut Ch) -> R {
    let bodies: Vec<(u8, Vec<u8>)> = vec![(2, b"abcdefgh".to_vec()), (2, b"abcd".to_vec()), (2, (0..100).collect()), (4, vorbis(b"vendor", &[b"a=b", b"", b"cc=ddd"])), (4, vorbis(b"", &[])), (4, vorbis(b"x", &[&[b"K=".to_vec(), vec![b'v'; 80]].concat()[..]])), (0, Info::new(16, 1, 8, 3).bytes()), (2, vec![5; 5000]), (4, vorbis(&[b'v'; 3000], &[&[b"K=".to_vec(), vec![b'v'; 3000]].concat()[..]]))];
    let (ty, body) = bodies[ch.choose(bodies.len())].clone();
    let n = body.len();
    let cut = if n < 200 { ch.range(0, n) } else { n - ch.pick(&[0usize, 1, 2, 100, (cap()-1), cap(), (cap()+1), 2900]).min(n) };
    let dl = ch.pick(&[0i64, 1, -1, 4, -4, 40]);
    let chunk = ch.pick(&[usize::MAX, 1, 2, 7, (cap()-1)]);
    let claim = (n as i64 + dl).max(0) as u32;
    let d = &body[..cut];
    let run = |p: u8, k: usize| nopanic(d, || poison(p, || match k { 0 => mb_text(&metadata::read_metadata_block(&mut BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(chunk))), ty, claim)), _ => mb_text(&metadata::read_metadata_block(&mut Cursor::new(d), ty, claim)) }));
    for k in 0..2 {
        let a = run(0xAA, k)?;
        let b = run(0x55, k)?;
        if a != b { return violb(format!("metadata type {} declared {} with {} bytes there: {:.200} or {:.200} depending on fresh memory", ty, claim, cut, a, b), d); }
        if cut == n && dl == 0 {
            let want = match ty { 2 => format!("app {} {:?}", u32::from_be_bytes([body[0], body[1], body[2], body[3]]), body[4..].to_vec()), _ => continue };
            if a != want { return violb(format!("application block: {:.200}, expected {:.200}", a, want), d); }
        }
    }
    ch.execs(4, 4);
    ch.state(mix(hash_bytes(ty as u64, d), mix(claim as u64, chunk as u64)));
    ch.sample(|| format!("metadata type {} declared {}, {} bytes there, pieces of {}", ty, claim, cut, chunk));
    Ok(())
}
/// Byte-level bulk reads fill the whole caller's buffer or fail.
pub fn bf_read_into(ch: &mut Ch) -> R {
    let n = ch.pick(&[0usize, 1, 5, 12, (cap()-1), cap(), (cap()+1), 4500]);
    let want = ch.pick(&[0usize, 1, 3, 5, 12, 13, (cap()-1), cap(), (cap()+1), 4500, 4501]);
    let skip = ch.pick(&[0usize, 1, 5, (cap()-2)]);
    let d: Vec<u8> = (0..n).map(|i| (i * 11 + (i >> 8)) as u8).collect();
    if skip > n { return Ok(()); }
    for c in [usize::MAX, 1, 2, 1000] { for p in [0xAAu8, 0x55] { for kind in 0..2 {
        let (r, buf) = nopanic(&d, || poison(p, || {
            let mut buf = vec![p; want];
            let r = if kind == 0 { let mut b = BufferedReader::new(Src::new(&d).chunk(Chunk::Uniform(c)).scribble(p)); b.skip(skip as u32).and_then(|_| b.read_into(&mut buf)) } else { let mut b = Cursor::new(&d); b.skip(skip as u32).and_then(|_| b.read_into(&mut buf)) };
            (r.is_ok(), buf)
        }))?;
        ch.exec(true);
        if r != (skip + want <= n) || r && buf[..] != d[skip..skip + want] { return violb(format!("bulk read of {} bytes after {} of {}: ok {}", want, skip, n, r), &d); }
    } } }
    ch.state(mix(n as u64, (want * 3000 + skip) as u64));
    Ok(())
}
pub fn c07() -> Prop {
    Prop { id: "C07", level: "model_checking",
        rule: "a case is an input with a buffer handed in (length, capacity, content, history) or a filling of fresh memory; results must equal the reference, and for malformed input be the same under two different fillings; distinct: input bytes and buffer parameters",
        assumptions: &["fresh memory is controlled through the global allocator (non-zeroed requests), two fillings", "a dependence on memory that neither filling changes is not seen"],
        families: vec![
            fam!("lengths", "693 frames x 10 lengths x 5 capacities x 4 contents of the buffer", bf_lengths),
            fam!("sequences", "all sequences of 3 (4) of 9 frames x 4 buffer policies each", bf_sequences),
            fam!("damaged", "two frames of each of 231 streams with bits flipped and checksums repaired, two contents of the buffer", bf_damaged),
            fam!("subframes", "all 256 subframe headers x all next bytes (10 bits) x 3 continuations x 13 block sizes x 3 sample sizes, two contents of the buffer", bf_subframes),
            fam!("memory-frames", "237 streams x 3 read sizes under two fillings of fresh memory", bf_poison_frames),
            fam!("memory-metadata", "metadata blocks x cuts x declared lengths x read sizes under two fillings of fresh memory", bf_poison_meta),
            fam!("bulk-reads", "bulk reads of 11 sizes from 8 source lengths and 4 positions", bf_read_into),
            fam!("pool", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus) x 6 lengths x 4 capacities x 2 contents of the buffer (fewer for large ones)", p_pool::buffers),
            fam!("pool-memory", "about 2500 small frames of the pool under two fillings of fresh memory", p_pool::memory),
            fam!("memory-lengths", "application data, vendors, comment values and names of some 300 lengths up to 140000 (1.2 million) x 4 inputs x 2 fillings of fresh memory, and cut short", p_more::memory_lengths),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features x 6 fillings of memory and buffers", p_twise::memory),
            fam!("big-combinations", "9 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features", p_twise::big_memory),
            fam!("buffer-lengths", "buffers of every length up to 4 times the block and 5 capacities x 126 frames", crate::p_hist::buffer_lengths),
            fam!("memory-large", "4 forms of metadata with texts of up to 10 MiB x 3 inputs under two fillings of fresh memory", crate::p_hist::memory_large),
            fam!("in-place", "runs of three of 34 small frames with the buffer changed in between in 13 ways with 4 values", crate::p_fill::in_place),
        ] }
}

// ------------------------------------------------------------------ C08

/// Every accessor of a block tells the same story.
pub fn consistent(g: &Block, w: &Blk, d: &[u8]) -> R {
    if let Err(m) = same(g, w) { return violb(m, d); }
    let r = guard(|| -> Result<(), String> {
        for c in 0..w.ch {
            let s = g.channel(c);
            if s.len() != w.dur as usize { return Err(format!("channel {} has {} samples", c, s.len())); }
            for i in 0..w.dur { if g.sample(c, i) != s[i as usize] { return Err(format!("sample({}, {}) is {}, the slice says {}", c, i, g.sample(c, i), s[i as usize])); } }
        }
        if w.ch == 2 {
            let mut it = g.stereo_samples();
            for i in 0..w.dur as usize {
                let sh = it.size_hint();
                let left = w.dur as usize - i;
                if sh.0 > left || sh.1.map_or(false, |u| u < left) { return Err(format!("stereo size hint {:?} with {} left", sh, left)); }
                let e = (w.data[i], w.data[w.dur as usize + i]);
                match it.next() { Some(x) if x == e => {} x => return Err(format!("stereo pair {} is {:?}, expected {:?}", i, x, e)) }
            }
            for _ in 0..3 { if let Some(x) = it.next() { return Err(format!("stereo pair {:?} beyond the end", x)); } }
            let v: Vec<(i32, i32)> = g.stereo_samples().collect();
            if v.len() != w.dur as usize || g.stereo_samples().count() != v.len() || g.stereo_samples().last() != v.last().cloned() { return Err("stereo iterator counts differ".into()); }
            for k in 0..v.len().min(40) { if g.stereo_samples().nth(k) != Some(v[k]) { return Err(format!("nth({}) of the stereo iterator differs", k)); } }
        }
        Ok(())
    });
    match r { Ok(Ok(())) => {} Ok(Err(m)) => return violb(m, d), Err(m) => return violb(format!("accessor panicked: {}", m), d) }
    // Documented panics.
    if guard(|| g.channel(w.ch).len()).is_ok() { return violb(format!("channel({}) of a block with {} channels did not panic", w.ch, w.ch), d); }
    if guard(|| g.sample(w.ch, 0)).is_ok() { return violb(format!("sample({}, 0) of a block with {} channels did not panic", w.ch, w.ch), d); }
    if guard(|| g.sample(w.ch - 1, w.dur)).is_ok() { return violb("sample beyond the end of the last channel did not panic", d); }
    if w.ch != 2 && guard(|| g.stereo_samples().count()).is_ok() { return violb(format!("stereo_samples() of a block with {} channels did not panic", w.ch), d); }
    Ok(())
}
pub fn cl_accessors(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).chain(std::iter::once(&corpus()[0])).collect();
    let b = c[ch.choose(c.len())];
    let dirty = ch.flag();
    let mut r = nopanic(&b.bytes, || FlacReader::new(&b.bytes[..]))?.unwrap();
    let mut fr = r.blocks();
    let mut buf = if dirty { vec![0x5555; 100_000] } else { vec![] };
    for w in &b.blks {
        match nopanic(&b.bytes, || fr.read_next_or_eof(buf))? {
            Ok(Some(g)) => {
                consistent(&g, w, &b.bytes)?;
                let (len, chs) = (g.len() as usize, w.ch as usize);
                buf = g.into_buffer();
                if buf.len() < len || buf[..len] != w.data[..] { return violb(format!("into_buffer() does not hold the {} channels", chs), &b.bytes); }
                if !dirty { buf = vec![]; }
            }
            x => return violb(format!("{}: {:?}", b.name, x.map(|y| y.is_some())), &b.bytes),
        }
    }
    ch.exec(true);
    ch.state(mix(hash_bytes(1, &b.bytes), dirty as u64));
    Ok(())
}
pub fn cl_shapes(ch: &mut Ch) -> R {
    let n = ch.range(1, 8) as u8;
    let chan = if n == 2 { ch.pick(&[Chan::Ind(2), Chan::LS, Chan::RS, Chan::MS]) } else { Chan::Ind(n) };
    let bs = ch.range(1, ch.t(40, 200));
    let mk = |s: usize| Fr { chan, bps: 16, pcm: (0..chan.n()).map(|c| wave(bs, 15, c, s + bs)).collect(), subs: vec![sub(Kind::Verbatim)] };
    let b = build("shape", Info { minb: 16, maxb: 300, ..Info::new(16, n as u32, 16, 0) }, vec![], true, 7, vec![mk(1), mk(2)]);
    let mut r = nopanic(&b.bytes, || FlacReader::new(&b.bytes[..]))?.unwrap();
    let mut fr = r.blocks();
    for w in &b.blks { match nopanic(&b.bytes, || fr.read_next_or_eof(vec![]))? { Ok(Some(g)) => consistent(&g, w, &b.bytes)?, x => return violb(format!("{:?}", x.map(|y| y.is_some())), &b.bytes) } }
    three_ways(ch, &b)?;
    ch.sample(|| format!("{:?} blocks of {}", chan, bs));
    Ok(())
}
/// All sequences of iterator calls on the stereo pairs of a block, against the same calls on a vector.
pub fn cl_stereo(ch: &mut Ch) -> R {
    let n = ch.pick(&[1usize, 2, 3, 7, 16, 33]);
    let spare = ch.pick(&[0usize, 5, 1000]);
    let pcm = vec![wave(n, 15, 0, n), wave(n, 15, 1, n + 9)];
    let want: Vec<(i32, i32)> = (0..n).map(|i| (pcm[0][i] as i32, pcm[1][i] as i32)).collect();
    let f = quick_frame(Chan::Ind(2), 16, true, 0, &pcm, &[sub(Kind::Verbatim)]).unwrap();
    let g = nopanic(&f, || FrameReader::new(SliceRb::new(&f)).read_next_or_eof(vec![0x77777; 2 * n + spare]))?.unwrap().unwrap();
    let mut it = g.stereo_samples();
    let mut model = want.clone().into_iter();
    let ks = [0usize, 1, 2, n - 1, n, n + 1, 2 * n, 1000, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, usize::MAX];
    let depth = ch.t(3, 4);
    let mut log = vec![];
    for _ in 0..depth {
        let op = ch.choose(ks.len() + 4);
        log.push(op);
        ch.steps(1);
        let bad = nopanic(&f, || {
            let sh = it.size_hint();
            let left = model.len();
            if sh.0 > left || sh.1.map_or(false, |u| u < left) { return Some(format!("size hint {:?} with {} left", sh, left)); }
            if op == 0 { let (x, y) = (it.next(), model.next()); if x != y { return Some(format!("next() {:?}, expected {:?}", x, y)); } }
            else if op == 1 { let (x, y): (Vec<_>, Vec<_>) = (it.by_ref().take(3).collect(), model.by_ref().take(3).collect()); if x != y { return Some(format!("take(3) {:?}, expected {:?}", x, y)); } }
            else if op == 2 { let (x, y): (Vec<_>, Vec<_>) = (it.by_ref().step_by(2).take(3).collect(), model.by_ref().step_by(2).take(3).collect()); if x != y { return Some(format!("step_by(2) {:?}, expected {:?}", x, y)); } }
            else if op == 3 { let (x, y) = (it.by_ref().skip(n / 2).next(), model.by_ref().skip(n / 2).next()); if x != y { return Some(format!("skip({}) {:?}, expected {:?}", n / 2, x, y)); } }
            else { let k = ks[op - 4]; let (x, y) = (it.nth(k), model.nth(k)); if x != y { return Some(format!("nth({}) {:?}, expected {:?}", k, x, y)); } }
            None
        })?;
        ch.state(mix(mix(n as u64, spare as u64), mix(model.len() as u64, log.len() as u64 * 100 + op as u64)));
        if let Some(m) = bad { return violb(format!("stereo pairs of a block of {} after calls {:?}: {}", n, log, m), &f); }
    }
    let end = ch.choose(4);
    let bad = nopanic(&f, || { match end {
        0 => { let (x, y): (Vec<_>, Vec<_>) = (it.collect(), model.collect()); if x != y { return Some("collect") } }
        1 => if it.count() != model.count() { return Some("count") },
        2 => if it.last() != model.last() { return Some("last") },
        _ => { let (x, y) = (it.fold(7i64, |a, p| a * 3 + p.0 as i64 - p.1 as i64 & 0xffffff), model.fold(7i64, |a, p| a * 3 + p.0 as i64 - p.1 as i64 & 0xffffff)); if x != y { return Some("fold") } }
    } None })?;
    if let Some(m) = bad { return violb(format!("stereo pairs of a block of {} after calls {:?}: {} differs", n, log, m), &f); }
    ch.exec(true);
    ch.sample(|| format!("stereo pairs of a block of {}: calls {:?}", n, log));
    Ok(())
}
pub fn three_ways(ch: &mut Ch, b: &Built) -> R {
    let d = &b.bytes;
    let want = Smp { v: b.inter(), end: Ok(()) };
    let cap = want.v.len() + 10;
    let f = nopanic(d, || full(&d[..]))?;
    if f.obs != expect_all(b) { return violb(format!("{} by blocks: {}", b.name, show(&f.obs)), d); }
    let s1 = nopanic(d, || samples(&mut FlacReader::new(&d[..]).unwrap().samples(), cap))?;
    if s1 != want { return violb(format!("{}: samples() gave {} samples and {:?}, blocks {}", b.name, s1.v.len(), s1.end, want.v.len()), d); }
    let s2 = nopanic(d, || samples(&mut FlacReader::new(&d[..]).unwrap().into_samples(), cap))?;
    if s2 != want { return violb(format!("{}: into_samples() gave {} samples and {:?}, blocks {}", b.name, s2.v.len(), s2.end, want.v.len()), d); }
    // Other iterator methods.
    let k = want.v.len();
    let x = nopanic(d, || (FlacReader::new(&d[..]).unwrap().samples().count(), FlacReader::new(&d[..]).unwrap().into_samples().count(), FlacReader::new(&d[..]).unwrap().samples().last().map(|r| r.ok()), FlacReader::new(&d[..]).unwrap().into_samples().last().map(|r| r.ok()),
        FlacReader::new(&d[..]).unwrap().samples().fold(0i64, |a, r| a.wrapping_mul(31).wrapping_add(r.unwrap_or(0) as i64)), FlacReader::new(&d[..]).unwrap().into_samples().skip(k / 2).map(|r| r.unwrap_or(0)).collect::<Vec<_>>()))?;
    let fold = want.v.iter().fold(0i64, |a, &r| a.wrapping_mul(31).wrapping_add(r as i64));
    let last = want.v.last().map(|&x| Some(x));
    if x != (k, k, last, last, fold, want.v[k / 2..].to_vec()) { return violb(format!("{}: count/last/fold/skip of the sample iterators disagree with next()", b.name), d); }
    for i in (0..k + 2).step_by((k / 24).max(1)) {
        let e = want.v.get(i).cloned();
        let y = nopanic(d, || { let mut r = FlacReader::new(&d[..]).unwrap(); let mut it = r.samples(); (it.nth(i).map(|r| r.unwrap()), it.next().map(|r| r.unwrap())) })?;
        let z = nopanic(d, || { let mut it = FlacReader::new(&d[..]).unwrap().into_samples(); (it.nth(i).map(|r| r.unwrap()), it.next().map(|r| r.unwrap())) })?;
        let w = (e, want.v.get(i + 1).cloned());
        if y != w || z != w { return violb(format!("{}: nth({}) then next() gave {:?} / {:?}, expected {:?}", b.name, i, y, z, w), d); }
    }
    // Size hints.
    let sh = nopanic(d, || -> Result<(), String> {
        let mut r = FlacReader::new(&d[..]).unwrap();
        let mut it = r.samples();
        let mut own = FlacReader::new(&d[..]).unwrap().into_samples();
        for i in 0..=k { let left = k - i; for sh in [it.size_hint(), own.size_hint()] { if sh.0 > left || sh.1.map_or(false, |u| u < left) { return Err(format!("size hint {:?} with {} samples left", sh, left)); } } it.next(); own.next(); }
        Ok(())
    })?;
    if let Err(m) = sh { return violb(format!("{}: {}", b.name, m), d); }
    ch.execs(8 + k as u64 / 12, 8);
    ch.state(hash_bytes(2, d));
    Ok(())
}
pub fn cl_agree(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).collect();
    let b = c[ch.choose(c.len())];
    three_ways(ch, b)?;
    ch.sample(|| format!("{}: {} blocks by blocks, borrowed and owning iterator, nth/fold/count/last", b.name, b.blks.len()));
    Ok(())
}
/// Any sequence of calls behaves like a cursor over the frames.
pub fn cl_ops(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(c.len())];
    let d = &b.bytes;
    let n = b.blks.len();
    let mut r = nopanic(d, || FlacReader::new(Src::new(d).chunk(Chunk::Uniform(50)).scribble(0xff)))?.unwrap();
    let mut at = 0usize; // next frame
    let depth = ch.t(5, 6);
    let mut log: Vec<usize> = vec![];
    let expect = |at: usize| -> Ob { if at < n { Ob::Blk(b.blks[at].clone()) } else { Ob::End } };
    let mut left_over = vec![];
    for step in 0..depth {
        let op = ch.choose(if at >= n { 4 } else { 11 });
        log.push(op);
        ch.steps(1);
        ch.state(mix(mix(at as u64, op as u64 | (step as u64) << 8), h(&b.bytes.len())));
        let ctx = |m: String| format!("{}: calls {:?}, before call {} at frame {}: {}", b.name, log, step, at, m);
        match op {
            0 => { let o = nopanic(d, || next(&mut r.blocks(), vec![]))?; if o != expect(at) { return violb(ctx(format!("blocks() gave {}", o.short())), d); } at = (at + 1).min(n); }
            1 => { // two blocks with the same reader, the buffer handed on
                let (x, y) = nopanic(d, || { let mut fr = r.blocks(); let (x, buf) = match fr.read_next_or_eof(std::mem::replace(&mut left_over, vec![])) { Ok(Some(g)) => (Ob::Blk(blk(&g)), g.into_buffer()), Ok(None) => (Ob::End, vec![]), Err(e) => (Ob::Err(ec(&e)), vec![]) }; let (y, b2) = match fr.read_next_or_eof(buf) { Ok(Some(g)) => (Ob::Blk(blk(&g)), g.into_buffer()), Ok(None) => (Ob::End, vec![]), Err(e) => (Ob::Err(ec(&e)), vec![]) }; left_over = b2; (x, y) })?;
                if x != expect(at) || y != expect((at + 1).min(n)) { return violb(ctx(format!("two blocks: {} and {}", x.short(), y.short())), d); }
                at = (at + 2).min(n);
            }
            2 => { let x = nopanic(d, || { let _ = r.samples(); let _ = r.blocks(); (r.streaminfo(), r.samples().size_hint()) })?; if info_ob(&x.0) != info_ref(&b.info) { return violb(ctx("streaminfo changed".into()), d); } }
            _ => {
                let t = if at < n { b.blks[at].data.len() } else { 0 };
                let t2 = if at + 1 < n { b.blks[at + 1].data.len() } else { 0 };
                let k = match op { 3 => 1, 4 => 2, 5 => t.saturating_sub(1), 6 => t, 7 => t + 1, 8 => t + t2, 9 => t + t2 + 1, _ => 100_000 };
                let mut want = vec![];
                let mut p = at;
                while want.len() < k && p < n { let v = inter(&b.blks[p]); let m = v.len().min(k - want.len()); want.extend(&v[..m]); p += 1; }
                let short = want.len() < k;
                let (got, err) = nopanic(d, || { let mut it = r.samples(); let mut got = vec![]; let mut err = false; for _ in 0..k { match it.next() { Some(Ok(s)) => got.push(s), Some(Err(_)) => { err = true; break } None => break } } (got, err) })?;
                if err || got != want { return violb(ctx(format!("{} samples asked for: got {}{}, expected {}{}", k, got.len(), if err { " and an error" } else { "" }, want.len(), if got.len() == want.len() { " with other values" } else { "" })), d); }
                let _ = short;
                at = p;
            }
        }
    }
    // The rest, in three ways.
    let rest: Vec<i32> = b.blks[at..].iter().flat_map(inter).collect();
    match ch.choose(3) {
        0 => { let o = nopanic(d, || drain(&mut r.blocks(), 100))?; let mut w: Vec<Ob> = b.blks[at..].iter().cloned().map(Ob::Blk).collect(); w.push(Ob::End); if o != w { return violb(format!("{}: after calls {:?}: rest by blocks {}", b.name, log, show(&o)), d); } }
        1 => { let s = nopanic(d, || samples(&mut r.samples(), 1 << 20))?; if s.v != rest || s.end.is_err() { return violb(format!("{}: after calls {:?}: rest by samples: {} of {}", b.name, log, s.v.len(), rest.len()), d); } }
        _ => { let s = nopanic(d, || samples(&mut r.into_samples(), 1 << 20))?; if s.v != rest || s.end.is_err() { return violb(format!("{}: after calls {:?}: rest by owned samples: {} of {}", b.name, log, s.v.len(), rest.len()), d); } }
    }
    ch.exec(true);
    ch.sample(|| format!("{}: calls {:?}", b.name, log));
    Ok(())
}
/// Metadata accessors in between change nothing and stay the same.
pub fn cl_meta(ch: &mut Ch) -> R {
    let c = corpus();
    let b = &c[ch.choose(c.len())];
    let k = ch.choose(4);
    let d = &b.bytes;
    let mut r = nopanic(d, || FlacReader::new(&d[..]))?.unwrap();
    for i in 0..b.blks.len() + 2 {
        if meta_ob(&r) != meta_expect(b) { return violb(format!("{}: metadata differs after {} blocks", b.name, i), d); }
        let e = if i < b.blks.len() { Ob::Blk(b.blks[i].clone()) } else { Ob::End };
        let o = match k {
            0 | 1 => nopanic(d, || next(&mut r.blocks(), vec![9; k * 1000]))?,
            2 => { let m = if i < b.blks.len() { b.blks[i].data.len() } else { 1 }; let s = nopanic(d, || samples(&mut r.samples().take(m), m + 1))?; let w = b.blks.get(i).map_or(vec![], inter); if s.v != w || s.end.is_err() { return violb(format!("{}: block {} by samples", b.name, i), d); } e.clone() }
            _ => { // an iterator made and dropped unused
                let _ = nopanic(d, || r.samples().size_hint())?; nopanic(d, || next(&mut r.blocks(), vec![]))? }
        };
        if o != e { return violb(format!("{}: block {}: {}", b.name, i, o.short()), d); }
    }
    let rest = nopanic(d, || { let inner: &[u8] = r.into_inner(); inner.len() })?;
    if rest != 0 { return violb(format!("{}: {} bytes left in the source at the end", b.name, rest), d); }
    ch.exec(true);
    ch.state(mix(k as u64, hash_bytes(0, d)));
    Ok(())
}
pub fn c08() -> Prop {
    Prop { id: "C08", level: "model_checking",
        rule: "a case is a stream and a sequence of calls; every answer is compared with a cursor over the encoded frames; distinct: (stream, frame position, call, depth)",
        assumptions: &["a fixed-blocksize stream's block size is given by its stream info"],
        families: vec![
            fam!("calls", "all sequences of 5 (6) calls out of 11 (blocks, pairs of blocks, partial sample iteration up to and across block ends, unused iterators) x 3 ways of reading the rest, 6 streams", cl_ops),
            fam!("stereo", "all sequences of 3 (4) iterator calls out of 17 (next, take, step_by, skip, nth up to usize::MAX) x 4 endings on the stereo pairs of 6 block sizes x 3 buffers", cl_stereo),
            fam!("agree", "237 streams by blocks and both sample iterators, with nth/count/last/fold/skip and size hints", cl_agree),
            fam!("accessors", "every block of 237 streams: slices, samples, stereo pairs, documented panics", cl_accessors),
            fam!("shapes", "1..8 channels and stereo modes x block sizes 1..40 (200)", cl_shapes),
            fam!("metadata", "metadata accessors interleaved with reading", cl_meta),
            fam!("pool", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus): every accessor", p_pool::accessors),
            fam!("pool-agree", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus) of up to 1500 (20000) samples by blocks and both sample iterators", p_pool::agree),
            fam!("big", "some 300 block sizes up to 65535 x 11 channel modes (quick: a third of those with more than two channels): every accessor and both sample iterators", p_pool::big_blocks),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features: every accessor", p_twise::views),
            fam!("big-combinations", "9 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features", p_twise::big_views),
            fam!("drops", "sample iterators dropped after every number of samples, a second one after every seventh (every) number, then the rest, 4 ways", crate::p_hist::drops),
            fam!("long-runs", "70000 frames by blocks, by one iterator, by an iterator for each frame, mixed", crate::p_hist::long_runs),
            fam!("iterator-calls", "6 streams x 2 sample iterators: all sequences of 3 (4) of 21 calls (next, nth, take, skip, step_by, find, position, ...) and one of 13 ending ones, against a list", crate::p_iter::sound_calls),
            fam!("stereo-calls", "blocks of 5 sizes: the same calls on the stereo iterator", crate::p_iter::stereo_calls),
            fam!("far", "streams of more than 2^32 samples by blocks and sample iterators", crate::p_far::samples),
            fam!("announced", "5 sequences of frames x stream infos that announce other totals (10), block sizes (6), channels, sample sizes, rates, frame sizes: blocks and both sample iterators agree", crate::p_real::announced_ways)
        ] }
}

// ------------------------------------------------------------------ C17

pub const SLACK: u64 = 512; // an error object
/// Serves `have` bytes of a head followed by zeros, without holding them.
struct Lazy<'a> { head: &'a [u8], pos: u64, have: u64 }
impl<'a> Lazy<'a> { fn at(&self, p: u64) -> u8 { if (p as usize) < self.head.len() { self.head[p as usize] } else { 0 } } }
impl<'a> ReadBytes for Lazy<'a> {
    fn read_u8(&mut self) -> io::Result<u8> { if self.pos < self.have { self.pos += 1; Ok(self.at(self.pos - 1)) } else { Err(io::Error::from(io::ErrorKind::UnexpectedEof)) } }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { if self.pos < self.have { self.read_u8().map(Some) } else { Ok(None) } }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> { if b.len() as u64 > self.have - self.pos { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); } for i in 0..b.len() { b[i] = self.at(self.pos + i as u64); } self.pos += b.len() as u64; Ok(()) }
    fn skip(&mut self, n: u32) -> io::Result<()> { if n as u64 > self.have - self.pos { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); } self.pos += n as u64; Ok(()) }
}
impl<'a> Read for Lazy<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min((self.have - self.pos) as usize); for i in 0..n { b[i] = self.at(self.pos + i as u64); } self.pos += n as u64; Ok(n) } }
const TEN: u32 = 10 << 20;
pub fn mem_meta(ty: u8, len: u32, head: &[u8], have: u64, ch: &mut Ch) -> R { mem_meta_real(ty, len, head, have, 0, ch) }
/// `real`: how many comments there really are; a list that grows one by one may take a multiple of what it holds.
pub fn mem_meta_real(ty: u8, len: u32, head: &[u8], have: u64, real: u64, ch: &mut Ch) -> R {
    let ctx = |m: String| format!("metadata type {} claiming {} bytes ({} there, content {}): {}", ty, len, have, hex(&head[..head.len().min(40)]), m);
    let big = len > TEN && matches!(ty, 2 | 4);
    let bound = if matches!(ty, 2 | 4) && !big { (10 * len as u64).max(2 * len as u64 + 128 * real) + SLACK } else { SLACK };
    let judge = |what: &str, r: claxon::Result<()>, m: Mem, extra: u64| -> R {
        if m.peak > bound + extra { return violb(ctx(format!("{} allocated {} bytes, at most {} allowed", what, m.peak, bound + extra)), head); }
        if big { match r { Err(Error::Unsupported(_)) => {} r => return violb(ctx(format!("{}: {:?}, expected it to be rejected as unsupported", what, r)), head) } }
        Ok(())
    };
    let (r, m) = nopanic(head, || measure(|| { let mut s = Lazy { head, pos: 0, have }; metadata::read_metadata_block(&mut s, ty, len).map(|b| drop(b)) }))?;
    judge("read_metadata_block", r, m, 0)?;
    ch.exec(true);
    if len < 1 << 24 {
        let mut hd = block(true, ty, &[]);
        hd[1..4].copy_from_slice(&len.to_be_bytes()[1..]);
        hd.extend(head);
        let (r, m) = nopanic(&hd, || measure(|| { let mut s = Lazy { head: &hd, pos: 0, have: have + 4 }; metadata::read_metadata_block_with_header(&mut s).map(|b| drop(b)) }))?;
        judge("read_metadata_block_with_header", r, m, 0)?;
        let (r, m) = nopanic(&hd, || measure(|| { let mut s = MetadataBlockReader::new(Lazy { head: &hd, pos: 0, have: have + 4 }); s.next().unwrap_or(Ok(MetadataBlock::Reserved)).map(|b| drop(b)) }))?;
        judge("the block iterator", r, m, 0)?;
        let mut st = b"fLaC".to_vec();
        st.extend(block(false, 0, &Info::new(16, 1, 16, 0).bytes()));
        let hl = st.len();
        st.extend(&hd);
        for mo in [false, true] { for vc in [true, false] {
            let (r, m) = nopanic(&st, || measure(|| FlacReader::new_ext(Lazy { head: &st, pos: 0, have: hl as u64 + 4 + have }, opts(mo, vc)).map(|r| drop(r))))?;
            // the reader's own input buffer comes on top
            if mo && !vc { if m.peak > 16_384 { return violb(ctx(format!("construction that does not want the block allocated {}", m.peak)), &st); } }
            else { judge("construction", r, m, 16_384)?; }
        } }
        ch.execs(6, 6);
    }
    Ok(())
}
pub fn lens() -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for i in 0..=24u32 { for d in -2i64..=2 { let x = (1i64 << i) + d; if (0..1 << 24).contains(&x) { v.push(x as u32); } } }
    for x in [TEN, 3 * 1000 * 1000, 1_048_576 * 5] { for d in -3i64..=3 { v.push((x as i64 + d) as u32); } }
    v.extend([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 33, 34, 35, 40, 100, 1000]);
    v.sort(); v.dedup();
    v
}
pub fn mm_claims(ch: &mut Ch) -> R {
    let ty = ch.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 100, 126, 127]);
    let ls = lens();
    let len = ls[ch.choose(ls.len())];
    let have = match ch.choose(4) { 0 => 0, 1 => 6.min(len as u64), 2 => 40.min(len as u64), _ => len as u64 };
    if ch.quick() && have > 3 << 20 && len % 2 == 1 { return Ok(()); }
    mem_meta(ty, len, b"\0\0\0\0\0\0\0\0", have, ch)?;
    ch.state(mix(ty as u64 | (len as u64) << 8, have));
    ch.sample(|| format!("type {} claims {} bytes, {} there", ty, len, have));
    Ok(())
}
/// Lengths and counts inside the comment block.
pub fn mm_vorbis(ch: &mut Ch) -> R {
    let ls: Vec<u32> = vec![8, 9, 12, 13, 16, 17, 20, 24, 40, 64, 100, 255, 256, 1000, 4096, 65536, 1 << 20, TEN - 1, TEN, TEN + 1, (1 << 24) - 1];
    let len = ls[ch.choose(ls.len())];
    let q = |base: u64| -> Vec<u32> { let mut v: Vec<i64> = vec![0, 1, 2, 3, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000]; for x in [base as i64, base as i64 - 4, base as i64 - 8, base as i64 - 9, base as i64 - 7, base as i64 / 4, base as i64 / 4 - 1, base as i64 / 4 + 1, base as i64 / 4 - 2, base as i64 / 2, base as i64 / 8] { v.push(x); } v.retain(|&x| (0..=u32::MAX as i64).contains(&x)); v.sort(); v.dedup(); v.iter().map(|&x| x as u32).collect() };
    let vs = q(len as u64);
    let vendor = vs[ch.choose(vs.len())];
    let count = vs[ch.choose(vs.len())];
    if vendor > 8 && vendor as u64 + 8 <= len as u64 && len > 1 << 17 && ch.quick() && count % 3 != 0 { return Ok(()); }
    let mut head = vendor.to_le_bytes().to_vec();
    if vendor < 5000 { head.resize(4 + vendor as usize, b'v'); head.extend(count.to_le_bytes()); }
    let first = ch.pick(&[0u32, 1, 2]);
    if vendor < 5000 { let c = match first { 0 => 0, 1 => len.saturating_sub(12 + vendor), _ => 2 }; head.extend(c.to_le_bytes()); head.extend(b"a="); }
    for have in [head.len() as u64, len as u64] { mem_meta(4, len, &head, have.max(8), ch)?; }
    ch.state(mix(mix(len as u64, vendor as u64), mix(count as u64, first as u64)));
    ch.sample(|| format!("comment block of {} bytes: vendor length {}, {} comments claimed", len, vendor, count));
    Ok(())
}
/// Well-formed comment blocks of many shapes.
pub fn mm_shapes(ch: &mut Ch) -> R {
    let n = ch.pick(&[0usize, 1, 2, 3, 10, 100, 1000, 20000]);
    let l = ch.pick(&[0usize, 1, 2, 3, 7, 8, 9, 40, 1000]);
    let ven = ch.pick(&[0usize, 1, 30, 5000]);
    if n * l > 4 << 20 { return Ok(()); }
    let c: Vec<u8> = (0..l).map(|i| if i == l / 2 { b'=' } else { b'k' }).collect();
    let cs: Vec<&[u8]> = (0..n).map(|_| &c[..]).collect();
    let body = vorbis(&vec![b'v'; ven], &cs);
    mem_meta_real(4, body.len() as u32, &body, body.len() as u64, if l == 0 { 0 } else { n as u64 }, ch)?;
    // and it must be read
    let mut s = Lazy { head: &body, pos: 0, have: body.len() as u64 };
    match nopanic(&[], || metadata::read_metadata_block(&mut s, 4, body.len() as u32))? { Ok(MetadataBlock::VorbisComment(v)) => if v.comments.len() != if l == 0 { 0 } else { n } { return viol(format!("{} comments of {} bytes: {} read", n, l, v.comments.len())); }, _ => return viol(format!("{} comments of {} bytes rejected", n, l)) }
    ch.state(mix(n as u64, (l * 10_000 + ven) as u64));
    Ok(())
}
pub fn frame_mem(d: &[u8], need: u64, ch: &mut Ch, what: &dyn Fn() -> String) -> R {
    let (r, m) = nopanic(d, || measure(|| FrameReader::new(SliceRb::new(d)).read_next_or_eof(Vec::new()).map(|b| b.map(|b| b.len()))))?;
    if m.peak > need * 4 + SLACK { return violb(format!("{}: reading the frame allocated {} bytes for {} samples", what(), m.peak, need), d); }
    let ok = matches!(r, Ok(Some(_)));
    for (len, cap) in [(need as usize, need as usize), (0, need as usize), (need as usize + 5, need as usize + 5), (1, 2 * need as usize + 9)] {
        let buf: Vec<i32> = vec_of(len, cap, 3);
        let (_, m) = nopanic(d, || measure(|| FrameReader::new(SliceRb::new(d)).read_next_or_eof(buf)))?;
        let lim = if ok { 0 } else { SLACK };
        if m.total > lim { return violb(format!("{}: {} bytes allocated though the buffer had length {} and room for {} samples, {} needed", what(), m.total, len, cap, need), d); }
    }
    ch.execs(5, 5);
    Ok(())
}
pub fn mm_frames(ch: &mut Ch) -> R {
    let z: Vec<&Built> = zoo().iter().chain(corpus()).collect();
    let b = z[ch.choose(z.len())];
    for (i, w) in b.blks.iter().enumerate() {
        let d = &b.bytes[b.frame_offs[i]..b.frame_offs[i + 1]];
        frame_mem(d, w.data.len() as u64, ch, &|| format!("{} frame {}", b.name, i))?;
        for cut in [1, 4, 5, 7, 9, d.len() / 2, d.len() - 1] { if cut < d.len() { frame_mem(&d[..cut], w.data.len() as u64, ch, &|| format!("{} frame {} cut after {}", b.name, i, cut))?; } }
        ch.state(hash_bytes(0, d));
    }
    Ok(())
}
/// Headers that announce large blocks, with hardly any data behind.
pub fn mm_headers(ch: &mut Ch) -> R {
    let cc = ch.choose(16) as u8;
    let bc = ch.choose(16) as u8;
    let sc = ch.choose(8) as u8;
    for ext in [0u32, 15, 255, 256, 4095, 32767, 65534, 65535] {
        let mut h = Hdr::new(16, Chan::Ind(1), 16, true, 0);
        h.bs_code = bc; h.bs_ext = ext; h.ch_code = cc; h.bps_code = sc;
        let mut d = h.bytes();
        let bs = match bc { 6 => (ext & 0xff) as u64 + 1, 7 => ext as u64 + 1, c => bs_of_code(c).unwrap_or(0) as u64 };
        let n = if cc < 8 { cc as u64 + 1 } else { 2 };
        d.extend([0, 0x12, 0x34, 0, 0x56]);
        frame_mem(&d, bs * n, ch, &|| format!("header with block size code {} ({}), channel code {}, sample size code {}", bc, bs, cc, sc))?;
        if bc != 6 && bc != 7 { break; }
    }
    ch.state(mix(cc as u64 * 16 + bc as u64, sc as u64));
    ch.sample(|| format!("header with block size code {} channel code {} sample size code {}", bc, cc, sc));
    Ok(())
}
pub fn mm_sizes(ch: &mut Ch) -> R {
    let step = ch.t(37, 1);
    let bs = (1 + ch.choose(65535 / step) * step).min(65535);
    for n in [1u8, 2, 8] { let h = Hdr::new(bs, Chan::Ind(n), 16, true, 0); let mut d = h.bytes(); for _ in 0..n { d.extend([0, 1, 2]); } let c = crc16(&d); d.extend(c.to_be_bytes()); frame_mem(&d, bs as u64 * n as u64, ch, &|| format!("block of {} x {}", n, bs))?; }
    ch.state(bs as u64);
    Ok(())
}
/// Whole streams: the iterators stay within the sum of their frames; metadata does not pile up beyond its size.
pub fn mm_streams(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).collect();
    let b = c[ch.choose(c.len())];
    let max = b.blks.iter().map(|x| x.data.len() as u64 * 4).max().unwrap_or(0);
    let sum: u64 = b.blks.iter().map(|x| x.data.len() as u64 * 4).sum();
    let meta = 10 * b.frame_offs[0] as u64 + 128 * b.tags.len() as u64 + 16_384;
    for k in 0..3 {
        let (_, m) = nopanic(&b.bytes, || measure(|| match k {
            0 => { let mut r = FlacReader::new(&b.bytes[..]).unwrap(); let n = r.samples().count(); n }
            1 => FlacReader::new(&b.bytes[..]).unwrap().into_samples().count(),
            _ => { let mut r = FlacReader::new(&b.bytes[..]).unwrap(); let mut fr = r.blocks(); let mut buf = vec![]; let mut n = 0; while let Ok(Some(x)) = fr.read_next_or_eof(buf) { n += 1; buf = x.into_buffer(); } n }
        }))?;
        let lim = meta + if k == 2 { 2 * max } else { sum };
        if m.peak > lim { return violb(format!("{}: reading everything allocated {} at its peak, frames {} in total, largest {}", b.name, m.peak, sum, max), &b.bytes); }
    }
    ch.execs(3, 3);
    ch.state(hash_bytes(1, &b.bytes));
    Ok(())
}
pub fn c17() -> Prop {
    Prop { id: "C17", level: "model_checking",
        rule: "a case is a metadata block or frame with declared sizes and the data that is really there; the allocations made during the call are measured by the global allocator and compared with the allowance; distinct: declared sizes",
        assumptions: &["512 bytes are allowed for an error object, 16 KiB for the stream reader's own input buffer", "a request beyond 1 GiB is refused by the allocator and brings the case down, which is reported"],
        families: vec![
            fam!("claims", "11 block types x 150 declared lengths up to 2^24 x 4 amounts of data x 3 functions and 4 option combinations", mm_claims),
            fam!("vorbis", "21 block lengths x 18 vendor lengths x 18 comment counts x 3 first comments x data there or not", mm_vorbis),
            fam!("shapes", "well-formed comment blocks: 8 counts x 9 lengths x 4 vendor lengths", mm_shapes),
            fam!("frames", "every frame of 237 streams, whole and cut, fresh and sufficient buffers", mm_frames),
            fam!("headers", "all block size, channel and sample size codes x 8 coded sizes, with little data", mm_headers),
            fam!("sizes", "every 37th (every) block size x 3 channel counts", mm_sizes),
            fam!("streams", "237 streams read to the end in 3 ways", mm_streams),
            fam!("pool", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus), whole and cut, fresh and sufficient buffers", p_pool::allocations),
            fam!("combinations", "frames that differ from one of 5 base frames in up to 2 of 18 features, whole and cut short, x 5 buffers", p_twise::memory_use),
            fam!("big-combinations", "9 (28) sizes from 1153 to 65535 x 5 base frames x every change of one of the other features", p_twise::big_memory_use),
            fam!("growing", "9 block sizes x 4 channel counts x 9 recycled buffers that are too small x 4 fill levels", crate::p_iter::growing),
            fam!("oversized", "11 block sizes x 4 channel counts x whole frame, cut frame, no frame x recycled buffers 1 to 100000 times too large (26 factors, up to 256 MiB) x 7 fill levels", crate::p_iter::oversized),
            fam!("announced", "the streams and stream infos of C01 announced, 7 ways of reading them", crate::p_real::announced_memory)
        ] }
}

// ------------------------------------------------------------------ C20

/// What a reader of stream `d` sees: metadata, then blocks or samples until the first error or the end.
#[derive(PartialEq, Clone, Debug)]
pub struct Trace { pub meta: Result<MetaOb, String>, pub obs: Vec<Ob>, pub smp: Vec<i32>, pub err: Option<String> }
pub fn trace<S: Read>(s: S, mode: usize) -> Trace {
    let mut t = Trace { meta: Err(String::new()), obs: vec![], smp: vec![], err: None };
    let r = FlacReader::new_ext(s, opts(mode == 3, true));
    let mut r = match r { Err(e) => { t.meta = Err(format!("{:?}", e)); return t } Ok(r) => r };
    t.meta = Ok(meta_ob(&r));
    match mode {
        0 => { let mut fr = r.blocks(); let mut buf = vec![]; for _ in 0..60 { match fr.read_next_or_eof(buf) { Ok(Some(b)) => { t.obs.push(Ob::Blk(blk(&b))); buf = b.into_buffer(); } Ok(None) => { t.obs.push(Ob::End); break } Err(e) => { t.err = Some(format!("{:?}", e)); break } } } }
        1 => for x in r.samples() { match x { Ok(x) => t.smp.push(x), Err(e) => t.err = Some(format!("{:?}", e)) } },
        2 => for x in r.into_samples() { match x { Ok(x) => t.smp.push(x), Err(e) => t.err = Some(format!("{:?}", e)) } },
        _ => { let v: Vec<String> = r.get_tag("artist").map(|s| s.to_string()).collect(); t.err = Some(format!("{:?}", v)); }
    }
    t
}
/// Short streams, good and bad.
pub fn pool() -> &'static [(String, Vec<u8>)] {
    static C: std::sync::OnceLock<Vec<(String, Vec<u8>)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for b in corpus() { v.push((b.name.to_string(), b.bytes.clone())); }
        for b in corpus().iter().take(5) { let mut x = b.bytes.clone(); x[b.frame_offs[1] + 7] ^= 0x18; v.push((format!("{} damaged", b.name), x)); }
        { let b = &corpus()[1]; let mut x = b.bytes.clone(); x[b.meta_offs[2] + 8] = 0xee; v.push(("stereo16 with bad comments".into(), x)); }
        { let b = &corpus()[3]; v.push(("deep24 cut".into(), b.bytes[..b.bytes.len() - 20].to_vec())); }
        // headers that leave something to the stream info, which claxon does not consult
        for k in 0..3u32 { let b = &corpus()[k as usize]; let mut x = b.bytes.clone(); for w in b.frame_offs.windows(2) { let (s, e) = (w[0], w[1]); let hl = crate::refdec::header(&x[s..]).unwrap().len; match k { 0 => x[s + 3] &= 0xf1, 1 => x[s + 2] &= 0xf0, _ => { x[s + 2] &= 0xf0; x[s + 3] = x[s + 3] & 0xf1 } } x[s + hl - 1] = crc8(&x[s..s + hl - 1]); fix_crc16(&mut x[s..e]); } v.push((format!("{} with a header field left to the stream info ({})", b.name, k), x)); }
        for i in [10usize, 40, 90, 130, 160, 200, 230] { v.push((format!("zoo {}", i), zoo()[i].bytes.clone())); }
        v
    })
}
/// What each stream gives on its own, for well-formed ones checked against the encoder.
pub fn solo(i: usize, mode: usize) -> &'static Trace {
    static C: std::sync::OnceLock<Vec<Vec<Trace>>> = std::sync::OnceLock::new();
    &C.get_or_init(|| pool().iter().map(|(_, d)| (0..4).map(|m| trace(Src::new(d), m)).collect()).collect())[i][mode]
}
pub fn trace_same(t: &Trace, i: usize, mode: usize, how: &dyn Fn() -> String) -> R {
    let s = solo(i, mode);
    if t == s { return Ok(()); }
    violb(format!("{}: {} (mode {}) gave meta {:?} {} {} samples {:?}; on its own {} {} samples {:?}", how(), pool()[i].0, mode, t.meta.as_ref().map(|_| t.meta == s.meta), show(&t.obs), t.smp.len(), t.err, show(&s.obs), s.smp.len(), s.err), &pool()[i].1)
}
pub fn in_solo(ch: &mut Ch) -> R {
    let c = corpus();
    let i = ch.choose(c.len());
    let b = &c[i];
    let (t, s) = (solo(i, 0), solo(i, 2));
    if t.meta != Ok(meta_expect(b)) || t.obs != expect_all(b) || s.smp != b.inter() { return violb(format!("{} on its own: {}", b.name, show(&t.obs)), &b.bytes); }
    ch.exec(true);
    ch.state(i as u64);
    Ok(())
}
/// One stream after another.
pub fn in_orders(ch: &mut Ch) -> R {
    let p = pool();
    let k = ch.t(2, 3);
    let seq: Vec<(usize, usize)> = (0..k).map(|_| (ch.choose(p.len()), ch.choose(4))).collect();
    let keep = ch.flag();
    let mut kept = vec![];
    for &(i, m) in &seq {
        let t = nopanic(&p[i].1, || trace(Src::new(&p[i].1), m))?;
        trace_same(&t, i, m, &|| format!("in the sequence {:?}", seq))?;
        if keep { // another reader of the same stream, left half read
            if let Ok(mut r) = nopanic(&p[i].1, || FlacReader::new(Src::new(&p[i].1)))? { nopanic(&p[i].1, || { for _ in 0..5 { r.samples().next(); } })?; kept.push(r); }
        }
    }
    // the frame reader and block functions too
    for &(i, _) in seq.iter().rev() { let t = nopanic(&p[i].1, || trace(&p[i].1[..], 0))?; trace_same(&t, i, 0, &|| format!("after the sequence {:?}", seq))?; }
    ch.execs(2 * k as u64, 2 * k as u64);
    ch.state(mix(h(&seq.iter().map(|x| x.0 * 4 + x.1).collect::<Vec<_>>()), keep as u64));
    ch.sample(|| format!("streams and modes {:?} one after another{}", seq, if keep { ", half-read readers kept alive" } else { "" }));
    Ok(())
}
/// During one read of the source, another reader does all its work.
struct Nest<'a> { s: Src, at: usize, n: usize, f: &'a mut dyn FnMut() }
impl<'a> Read for Nest<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.n == self.at { (self.f)(); } self.n += 1; self.s.read(b) } }
pub fn in_nested(ch: &mut Ch) -> R {
    let p = pool();
    let a = ch.choose(p.len());
    let b = ch.choose(p.len());
    let ma = ch.choose(4);
    let chunk = ch.pick(&[1usize, 7]);
    let reads = p[a].1.len() / chunk + 2;
    for at in 0..reads {
        if ch.quick() && chunk == 1 && (at + b) % 5 != 0 { continue; }
        let mb = (at + ma) % 4;
        let inner: RefCell<Option<Result<Trace, String>>> = RefCell::new(None);
        let mut f = || { *inner.borrow_mut() = Some(guard(|| trace(Src::new(&p[b].1).chunk(Chunk::Uniform(9)), mb))); };
        let t = nopanic(&p[a].1, || trace(Nest { s: Src::new(&p[a].1).chunk(Chunk::Uniform(chunk)), at, n: 0, f: &mut f }, ma))?;
        let how = || format!("{} read during read {} of {}", p[b].0, at, p[a].0);
        trace_same(&t, a, ma, &how)?;
        if let Some(r) = inner.into_inner() { match r { Ok(t) => trace_same(&t, b, mb, &how)?, Err(m) => return violb(format!("{}: panicked: {}", how(), m), &p[b].1) } }
        ch.execs(2, 2);
        ch.state(mix(mix(a as u64, b as u64), mix(at as u64, chunk as u64 * 4 + ma as u64)));
    }
    ch.sample(|| format!("{} decoded within every read of {} (pieces of {})", p[b].0, p[a].0, chunk));
    Ok(())
}
/// All merges of the calls of two readers, buffers passed between them.
pub fn in_merges(ch: &mut Ch) -> R {
    let p = pool();
    let a = ch.choose(p.len());
    let b = ch.choose(p.len());
    let swap = ch.flag();
    let (da, db) = (&p[a].1, &p[b].1);
    let open = |d: &'static [u8]| nopanic(d, || FlacReader::new(Src::new(d).chunk(Chunk::Uniform(21))));
    let (ra, rb) = (open(da)?, open(db)?);
    let (mut ra, mut rb) = match (ra, rb) { (Ok(x), Ok(y)) => (x, y), _ => return Ok(()) };
    let (mut fa, mut fb) = (ra.blocks(), rb.blocks());
    let wa: Vec<Ob> = solo(a, 0).obs.clone();
    let wb: Vec<Ob> = solo(b, 0).obs.clone();
    let (na, nb) = (wa.len() + solo(a, 0).err.is_some() as usize, wb.len() + solo(b, 0).err.is_some() as usize);
    let (mut i, mut j) = (0, 0);
    let mut order = vec![];
    let mut bufs = [vec![], vec![]];
    while i < na || j < nb {
        let first = if i == na { false } else if j == nb { true } else { ch.choose(2) == 0 };
        order.push(first);
        let k = if swap { (i + j) % 2 } else { !first as usize };
        let buf = std::mem::replace(&mut bufs[k], vec![]);
        let (fr, w, n, d): (&mut FrameReader<_>, &Vec<Ob>, &mut usize, _) = if first { (&mut fa, &wa, &mut i, da) } else { (&mut fb, &wb, &mut j, db) };
        let o = match nopanic(d, || fr.read_next_or_eof(buf))? { Ok(Some(g)) => { let o = Ob::Blk(blk(&g)); bufs[k] = g.into_buffer(); o } Ok(None) => Ob::End, Err(e) => Ob::Err(ec(&e)) };
        let ok = match w.get(*n) { Some(x) => *x == o, None => matches!(o, Ob::Err(_)) };
        if !ok { return violb(format!("{} and {} by turns {:?}: call {} of the {} reader gave {}", p[a].0, p[b].0, order, *n, if first { "first" } else { "second" }, o.short()), d); }
        *n += 1;
    }
    ch.exec(true);
    ch.state(mix(mix(a as u64, b as u64), h(&order.iter().map(|&x| x as u32).collect::<Vec<_>>()) ^ swap as u64));
    ch.sample(|| format!("{} and {} by turns {:?}", p[a].0, p[b].0, order));
    Ok(())
}
/// Two threads under a scheduler: control changes hands only at reads of the source, where the schedule says so.
struct Sched { m: Mutex<(usize, [bool; 2], [usize; 2], usize)>, cv: Condvar, plan: Vec<usize> } // turn, done, reads, next plan entry
impl Sched {
    fn point(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        g.2[t] += 1;
        let k = g.3;
        if k < self.plan.len() && g.2[t] > self.plan[k] && !g.1[1 - t] { g.3 += 1; g.0 = 1 - t; self.cv.notify_all(); while g.0 != t { g = self.cv.wait(g).unwrap(); } }
    }
    fn start(&self, t: usize) { let mut g = self.m.lock().unwrap(); while g.0 != t { g = self.cv.wait(g).unwrap(); } }
    fn finish(&self, t: usize) { let mut g = self.m.lock().unwrap(); g.1[t] = true; g.0 = 1 - t; self.cv.notify_all(); }
}
struct Step<'a> { d: &'a [u8], chunk: usize, s: &'a Sched, t: usize }
impl<'a> Read for Step<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.s.point(self.t); let n = b.len().min(self.chunk).min(self.d.len()); b[..n].copy_from_slice(&self.d[..n]); self.d = &self.d[n..]; Ok(n) } }
pub fn in_threads(ch: &mut Ch) -> R {
    let p = pool();
    let list: Vec<usize> = if ch.quick() { vec![0, 1, 3, 6, 9] } else { vec![0, 1, 2, 3, 4, 6, 7, 11, 12] };
    let a = ch.pick(&list);
    let b = ch.pick(&list);
    let (ma, mb) = ch.pick(&[(0usize, 0usize), (1, 0), (2, 1)]);
    let np = ch.t(24usize, 40); // reads per stream
    let chunk = |i: usize| (p[i].1.len() + np - 1) / np;
    let start = ch.choose(2);
    let who = [a, b];
    // the plan: read counts at which the running thread is preempted
    let x = ch.range(0, np);
    let y = ch.range(0, np);
    let bound = 3;
    let zs: Vec<usize> = if bound == 3 { let mut v: Vec<usize> = (x + 1..=np).step_by(ch.t(5, 2)).collect(); v.push(usize::MAX); v } else { vec![usize::MAX] };
    for z in zs {
        let s = Arc::new(Sched { m: Mutex::new((start, [false; 2], [0; 2], 0)), cv: Condvar::new(), plan: vec![x, y, z] });
        let run = |t: usize| { let s = &*s; s.start(t); let i = who[t]; let r = guard(|| trace(Step { d: &p[i].1, chunk: chunk(i), s, t }, if t == 0 { ma } else { mb })); s.finish(t); r };
        let (r0, r1) = std::thread::scope(|sc| { let h0 = sc.spawn(|| run(0)); let r1 = run(1); (h0.join().unwrap(), r1) });
        let how = || format!("two threads, {} and {}, thread {} first, preempted after reads {:?}", p[a].0, p[b].0, start, [x, y, z]);
        for (t, r) in [(0, r0), (1, r1)] { match r { Ok(tr) => trace_same(&tr, who[t], if t == 0 { ma } else { mb }, &how)?, Err(m) => return violb(format!("{}: panicked: {}", how(), m), &p[who[t]].1) } }
        ch.execs(2, 2);
        ch.state(mix(mix(a as u64 * 100 + b as u64, x as u64 * 100 + y as u64), mix(z as u64, (start * 10 + ma) as u64)));
    }
    heartbeat();
    ch.sample(|| format!("{} and {} on two threads, preemptions after reads {}, {} and each later one", p[a].0, p[b].0, x, y));
    Ok(())
}
/// Free-running threads decoding at the same time as a plausibility check of the claim that there is no shared state.
pub fn c20() -> Prop {
    Prop { id: "C20", level: "model_checking",
        rule: "a case is an assignment of streams to readers and a schedule (order, nesting point, merge of calls, preemption points at source reads, instructions at which the other decoding runs); each reader's results are compared with those it gives alone; distinct: (streams, schedule)",
        assumptions: &["between instructions of the first decoder the second one runs from start to end (no finer interleaving of both); with the larger streams control changes only at reads of the source, up to 3 times"],
        families: vec![
            fam!("instructions", "14 x 14 inputs: the second decoded on another thread in between every instruction of the first, and every 7th and 509th (thorough: 23 patterns), and once at each instruction that changes a static", p_steps::interrupted),
            fam!("instructions-first", "14 x 14 inputs as the first two decodings of a process: the second at each instruction of the first that changes a static", p_steps::first),
            fam!("solo", "what the streams give on their own is what was encoded", in_solo),
            fam!("orders", "all sequences of 2 (3) of 23 good and bad streams x 4 ways of reading, with and without half-read readers kept", in_orders),
            fam!("nested", "23 x 23 streams x 4 ways of reading: the second is decoded within each read of the first (pieces of 7 bytes; of 1 byte every 5th read, thorough: every read)", in_nested),
            fam!("merges", "all merges of the calls of two readers over 23 x 23 streams, own or exchanged buffers", in_merges),
            fam!("threads", "5 x 5 (9 x 9) streams x 3 ways of reading on two threads, all placements of 2 preemptions at 24 (40) reads and a third at every 5th (2nd) later one", in_threads),
            fam!("pairs", "every ordered pair out of some 1000 (3000) frames of the pool: the second gives what it gives on its own", p_pool::pairs),
            fam!("metadata-pairs", "every ordered pair out of some 350 metadata blocks of all types and many lengths", p_more::meta_pairs),
            fam!("stream-pairs", "ordered pairs out of some 2500 streams of the pool (every ninth with every eleventh; third with fifth)", p_more::stream_pairs),
            fam!("combinations", "all ordered pairs of 709 frames (base frames with every single changed feature), the second read after the first with the same reader and buffer", p_twise::after),
            fam!("depth", "23 streams x 4 ways of reading x 3 piece sizes x 5 places: decoders nested up to 40 deep in the reads of decoders", crate::p_iter::depth),
            fam!("crowd", "up to 5000 readers alive at the same time and used in turn, 3 orders", crate::p_iter::crowd),
            fam!("together", "up to 130 threads that meet within one of their first 4 reads x 23 streams x 4 ways of reading", crate::p_iter::together),
            fam!("promises", "a source that leaves bytes unwritten from 5 places of 6 streams on, 7 lengths, read before and after 6 kinds of use of 6 other streams", crate::p_code::promises),
            fam!("resembling", "all sequences of 3 (4) of some 9 streams each of 4 groups that agree in length, header, vendor or coefficients, one after the other or all open", crate::p_real::resembling),
            fam!("neighbours", "16 streams with comments, the corpus and the zoo x every byte of the first 700 (thorough 3000) changed in 5 ways: changed, intact, changed, intact, on one thread, as blocks and as samples", crate::p_junk::neighbours),
        ] }
}

// ------------------------------------------------------------------ C21

/// Notes every request made although all that is needed has been delivered.
struct Demand { d: Rc<[u8]>, pos: usize, chunk: usize, need: Rc<Cell<usize>>, bad: Rc<Cell<Option<usize>>>, at: Rc<Cell<usize>> }
impl Demand { fn new(d: &[u8], chunk: usize) -> Demand { Demand { d: d.into(), pos: 0, chunk, need: Rc::new(Cell::new(0)), bad: Rc::new(Cell::new(None)), at: Rc::new(Cell::new(0)) } } }
impl Read for Demand {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.need.get() && !b.is_empty() && self.bad.get().is_none() { self.bad.set(Some(self.pos)); }
        let n = b.len().min(self.chunk).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        self.at.set(self.pos);
        Ok(n)
    }
}
pub fn dm_check(ch: &mut Ch, b: &Built, chunk: usize, mode: usize) -> R {
    let d = &b.bytes;
    let s = Demand::new(d, chunk);
    let (need, bad) = (s.need.clone(), s.bad.clone());
    let a0 = b.frame_offs[0];
    let over = |what: String, need: usize| -> R { match bad.get() { None => Ok(()), Some(p) => violb(format!("{} in pieces of {}: {} asked for more with {} bytes delivered though only {} are needed", b.name, chunk, what, p, need), d) } };
    need.set(a0);
    let mut r = match nopanic(d, || FlacReader::new_ext(s, opts(false, mode != 3)))? { Ok(r) => r, Err(e) => return violb(format!("{}: {:?}", b.name, e), d) };
    over("construction".into(), a0)?;
    let n = b.blks.len();
    match mode {
        0 | 3 => {
            let mut fr = r.blocks();
            over("blocks()".into(), a0)?;
            for i in 0..n { need.set(b.frame_offs[i + 1]); let o = nopanic(d, || next(&mut fr, vec![]))?; if o != Ob::Blk(b.blks[i].clone()) { return violb(format!("{} block {}: {}", b.name, i, o.short()), d); } over(format!("block {}", i), b.frame_offs[i + 1])?; }
        }
        1 => {
            for i in 0..n { need.set(b.frame_offs[i + 1]); let o = nopanic(d, || next(&mut r.blocks(), vec![0; 5000]))?; if o != Ob::Blk(b.blks[i].clone()) { return violb(format!("{} block {}: {}", b.name, i, o.short()), d); } over(format!("block {} (new reader)", i), b.frame_offs[i + 1])?; }
        }
        _ => {
            let mut own; let mut brw;
            let it: &mut dyn Iterator<Item = claxon::Result<i32>> = if mode == 2 { brw = r.samples(); &mut brw } else { own = r.into_samples(); &mut own };
            over("creating the sample iterator".into(), a0)?;
            for i in 0..n { need.set(b.frame_offs[i + 1]); for (k, &w) in inter(&b.blks[i]).iter().enumerate() { match nopanic(d, || it.next())? { Some(Ok(x)) if x == w => {} x => return violb(format!("{} sample {} of block {}: {:?}", b.name, k, i, x.map(|r| r.is_ok())), d) } over(format!("sample {} of block {}", k, i), b.frame_offs[i + 1])?; } }
        }
    }
    ch.exec(true);
    ch.state(mix(hash_bytes(mode as u64, d), chunk as u64));
    Ok(())
}
pub fn dm_streams(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).collect();
    let b = c[ch.choose(c.len())];
    let mode = ch.choose(5);
    for chunk in [1usize, 2, 3, 5, 8, 13, 21, 34, cap()] { dm_check(ch, b, chunk, mode)?; }
    // reads that end exactly at every item boundary
    ch.sample(|| format!("{} in pieces of 1..34 by mode {}", b.name, mode));
    Ok(())
}
pub fn dm_align(ch: &mut Ch) -> R {
    let c = corpus();
    let i = ch.choose(5);
    let span = c[i].bytes.len() - c[i].frame_offs[0];
    let total = ch.choose(span + 6);
    let base = c[i].frame_offs[0] + 4;
    let b = padded(&c[i], (cap() + 3).saturating_sub(base + total));
    for mode in 0..5 { for chunk in [usize::MAX, 1, cap(), (cap()-1)] { dm_check(ch, &b, chunk, mode)?; } }
    ch.sample(|| format!("{} with first frame at {}", b.name, b.frame_offs[0]));
    Ok(())
}
/// Metadata only, and the block iterator.
pub fn dm_meta(ch: &mut Ch) -> R {
    let item = |k: usize, last: bool| -> Vec<u8> { match k { 0 => block(last, 1, &[0; 3]), 1 => block(last, 2, b"abcdef"), 2 => block(last, 4, &vorbis(b"v", &[b"a=b", b"", b"long=zzzzzzzzzzzzzzz"])), 3 => block(last, 70, &[1, 2]), 4 => block(last, 6, &[]), 5 => block(last, 3, &[7; 36]), 6 => block(last, 1, &[0; 2050]), 7 => block(last, 2, &[5; 2048]), 8 => block(last, 5, &[0; 9]), 9 => block(last, 2, b"appl"), 10 => block(last, 1, &[]), 11 => block(last, 4, &vorbis(b"", &[])), _ => block(last, 4, &vorbis(b"", &[b""])) } };
    let len = ch.range(0, ch.t(3, 4));
    let seq: Vec<usize> = (0..len).map(|_| ch.choose(13)).collect();
    let vcs = |k: usize| matches!(k, 2 | 11 | 12);
    let chunk = ch.pick(&[1usize, 7, cap()]);
    let mut d = b"fLaC".to_vec();
    d.extend(block(len == 0, 0, &Info::new(16, 1, 8, 0).bytes()));
    let mut ends = vec![d.len()];
    for (i, &k) in seq.iter().enumerate() { d.extend(item(k, i + 1 == len)); ends.push(d.len()); }
    let meta_end = d.len();
    d.extend([0xff; 40]);
    // the iterator, buffered
    {
        let s = Demand::new(&d[4..], chunk);
        let (need, bad) = (s.need.clone(), s.bad.clone());
        let mut it = MetadataBlockReader::new(BufferedReader::new(s));
        for (i, &e) in ends.iter().enumerate() {
            need.set(e - 4);
            match nopanic(&d, || it.next())? { Some(Ok(_)) => {} x => return violb(format!("block {} of {:?}: {:?}", i, seq, x.map(|r| r.is_ok())), &d) }
            if let Some(p) = bad.get() { return violb(format!("blocks {:?} in pieces of {}: block {} asked for more with {} bytes delivered, {} needed", seq, chunk, i, p, e - 4), &d); }
        }
        for _ in 0..2 { if nopanic(&d, || it.next().is_some())? { return violb("a block after the last", &d); } }
        if let Some(p) = bad.get() { return violb(format!("blocks {:?}: the finished iterator asked for more after {} bytes", seq, p), &d); }
    }
    // on a cursor: exact positions
    {
        let mut c = Cursor::new(&d[..]);
        c.set_position(4);
        for (i, &e) in ends.iter().enumerate() {
            let ok = nopanic(&d, || metadata::read_metadata_block_with_header(&mut c).is_ok())?;
            if !ok || c.position() != e as u64 { return violb(format!("block {} of {:?}: cursor at {}, expected {}", i, seq, c.position(), e), &d); }
        }
        let mut c = Cursor::new(&d[..]);
        c.set_position(4);
        { let mut it = MetadataBlockReader::new(&mut c); while nopanic(&d, || matches!(it.next(), Some(Ok(_))))? {} }
        if c.position() != meta_end as u64 { return violb(format!("blocks {:?}: after iteration the cursor is at {}, expected {}", seq, c.position(), meta_end), &d); }
        let mut starts = vec![4]; starts.extend(&ends[..ends.len() - 1]);
        for (i, (&s, &e)) in starts.iter().zip(&ends).enumerate() {
            let mut c = Cursor::new(&d[..]);
            c.set_position(s as u64 + 4);
            let ty = d[s] & 127;
            let ok = nopanic(&d, || metadata::read_metadata_block(&mut c, ty, (e - s - 4) as u32).is_ok())?;
            if !ok || c.position() != e as u64 { return violb(format!("read_metadata_block of block {} of {:?}: cursor at {}, expected {}", i, seq, c.position(), e), &d); }
        }
    }
    // single blocks from a source that has just the block and fails if asked again
    {
        struct Just<'a>(&'a [u8], usize, usize);
        impl<'a> Read for Just<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(self.2).min(self.0.len() - self.1); if n == 0 { return Err(io::Error::new(io::ErrorKind::WouldBlock, "nothing there yet")); } b[..n].copy_from_slice(&self.0[self.1..self.1 + n]); self.1 += n; Ok(n) } }
        let mut starts = vec![4]; starts.extend(&ends[..ends.len() - 1]);
        for (i, (&s, &e)) in starts.iter().zip(&ends).enumerate() {
            let one = nopanic(&d, || metadata::read_metadata_block_with_header(&mut BufferedReader::new(Just(&d[s..e], 0, chunk))).err())?;
            let two = if e == s + 4 { None } else { nopanic(&d, || metadata::read_metadata_block(&mut BufferedReader::new(Just(&d[s + 4..e], 0, chunk)), d[s] & 127, (e - s - 4) as u32).err())? };
            if let Some(x) = one.or(two) { return violb(format!("block {} of {:?} with all its bytes there, in pieces of {}: {:?}", i, seq, chunk, x), &d); }
        }
    }
    // construction under the four options
    for (mo, vc) in [(false, true), (false, false), (true, true), (true, false)] {
        let e = if !mo { meta_end } else if !vc { ends[0] } else { seq.iter().position(|&k| vcs(k)).map_or(meta_end, |i| ends[i + 1]) };
        if seq.iter().filter(|&&k| vcs(k)).count() > 1 && !mo { continue; }
        let s = Demand::new(&d, chunk);
        let (need, bad) = (s.need.clone(), s.bad.clone());
        need.set(e);
        let r = nopanic(&d, || FlacReader::new_ext(s, opts(mo, vc)).map(|_| ()))?;
        if r.is_err() { return violb(format!("blocks {:?}, metadata_only {}, comments {}: construction failed", seq, mo, vc), &d); }
        if let Some(p) = bad.get() { return violb(format!("blocks {:?} in pieces of {}, metadata_only {}, comments {}: construction asked for more with {} bytes delivered, {} needed", seq, chunk, mo, vc, p, e), &d); }
    }
    ch.execs(6 + len as u64, 6);
    ch.state(mix(hash_bytes(0, &d), chunk as u64));
    ch.sample(|| format!("blocks {:?} in pieces of {}", seq, chunk));
    Ok(())
}
/// Frames embedded in something else.
pub fn dm_embedded(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).collect();
    let b = c[ch.choose(c.len())];
    let fill = ch.pick(&[0u8, 0xff, 0xf8]);
    let gap = ch.pick(&[0usize, 1, 16]);
    let mut d = vec![];
    let mut at = vec![];
    for w in b.frame_offs.windows(2) { d.resize(d.len() + gap, fill); let s = d.len(); d.extend(&b.bytes[w[0]..w[1]]); at.push((s, d.len())); }
    d.resize(d.len() + 5, fill);
    let variable = !matches!(b.name, "mono16" | "eight8" | "deep24");
    for (i, &(s, e)) in at.iter().enumerate() {
        let w = &b.blks[i];
        let mut cu = Cursor::new(&d[..]);
        cu.set_position(s as u64);
        let o = nopanic(&d, || next(&mut FrameReader::new(&mut cu), vec![7; 30]))?;
        let ok = match &o { Ob::Blk(g) => g.data == w.data && g.dur == w.dur && (!variable || g.time == w.time), _ => false };
        if !ok || cu.position() != e as u64 { return violb(format!("{} frame {} at {}..{}: {}, cursor at {}", b.name, i, s, e, o.short(), cu.position()), &d); }
        // by value, given back
        let mut cu = Cursor::new(d.clone());
        cu.set_position(s as u64);
        let p = nopanic(&d, || { let mut f = FrameReader::new(cu); let _ = f.read_next_or_eof(vec![]); f.into_inner().position() })?;
        if p != e as u64 { return violb(format!("{} frame {} at {}..{}: into_inner() at {}", b.name, i, s, e, p), &d); }
        let mut rb = SliceRb::new(&d);
        rb.pos = s;
        let _ = nopanic(&d, || next(&mut FrameReader::new(&mut rb), vec![]))?;
        if rb.pos != e { return violb(format!("{} frame {} at {}..{}: a custom input is left at {}", b.name, i, s, e, rb.pos), &d); }
    }
    ch.execs(3 * at.len() as u64, 3);
    ch.state(mix(hash_bytes(fill as u64, &b.bytes), gap as u64));
    ch.sample(|| format!("{} with its frames {} bytes of {:#x} apart", b.name, gap, fill));
    Ok(())
}
/// Bytes arrive one at a time, the item is there as soon as its last byte is: otherwise the source reports an error.
pub fn dm_starve(ch: &mut Ch) -> R {
    let c: Vec<&Built> = corpus().iter().chain(zoo()).collect();
    let b = c[ch.choose(c.len())];
    let big = ch.flag();
    let d = &b.bytes;
    struct Starve { d: Rc<[u8]>, pos: usize, lim: Rc<Cell<usize>>, chunk: usize }
    impl Read for Starve { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(self.chunk).min(self.lim.get() - self.pos); if n == 0 && !b.is_empty() { return Err(io::Error::new(io::ErrorKind::WouldBlock, "nothing there yet")); } b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
    let lim = Rc::new(Cell::new(b.frame_offs[0]));
    let mut r = match nopanic(d, || FlacReader::new(Starve { d: d[..].into(), pos: 0, lim: lim.clone(), chunk: if big { 4096 } else { 1 } }))? { Ok(r) => r, Err(e) => return violb(format!("{}: construction with all metadata there: {:?}", b.name, e), d) };
    for i in 0..b.blks.len() {
        lim.set(b.frame_offs[i + 1]);
        let o = if i % 2 == 0 { nopanic(d, || next(&mut r.blocks(), vec![]))? } else { let n = b.blks[i].data.len(); let s = nopanic(d, || samples(&mut r.samples().take(n), n + 1))?; if s.v == inter(&b.blks[i]) && s.end.is_ok() { Ob::Blk(b.blks[i].clone()) } else { Ob::Err(s.end.err().unwrap_or(E::Format)) } };
        if o != Ob::Blk(b.blks[i].clone()) { return violb(format!("{}: block {} with all its bytes there and no more: {}", b.name, i, o.short()), d); }
    }
    ch.exec(true);
    ch.state(mix(hash_bytes(7, d), big as u64));
    Ok(())
}
pub fn c21() -> Prop {
    Prop { id: "C21", level: "model_checking",
        rule: "a case is a stream, a read size and a way of reading; the source notes any request made when everything the current item needs has been delivered, and cursor positions are compared with item boundaries; distinct: those coordinates",
        assumptions: &["only items that are delivered successfully are required to leave the cursor at their end", "asking the source for as much as fits its buffer is not asking beyond the need, as long as the request is made while something needed is missing"],
        families: vec![
            fam!("streams", "237 streams x 9 read sizes x 5 ways of reading", dm_streams),
            fam!("alignment", "5 streams at every alignment to the internal buffer x 5 ways x 4 read sizes", dm_align),
            fam!("metadata", "all sequences of up to 3 (4) of 13 blocks (empty data, strings and lists among them) x 3 read sizes: iterator, cursor, single blocks from a source that has just the block, construction under 4 options", dm_meta),
            fam!("embedded", "frames of 237 streams embedded with 3 fillers and 3 gaps: cursor and custom input positions", dm_embedded),
            fam!("starved", "237 streams whose source has exactly the bytes of the item", dm_starve),
            fam!("pool", "about 2500 small frames of the pool and a second one behind each x 5 read sizes, ways of reading in rotation", p_pool::demand),
            fam!("consumed-values", "frames over all 65536 16-bit values, together every checksum x 4 continuations: consumed position", p_pool::consumed_values),
            fam!("consumed-frames", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus) x 7 continuations: consumed position", p_pool::consumed_frames),
            fam!("combinations", "pairs of 709 frames (quick: a 61st; thorough: a seventh) as streams by blocks and both sample iterators", p_twise::interfaces),
            fam!("pipe", "12 streams through a named pipe, each item written when the one before has been handed out, x 4 ways", crate::p_hist::pipe),
            fam!("far", "6 streams in a cursor behind 2^31 and 2^32 bytes: frames, and where the cursor stands", crate::p_far::embedded),
        ] }
}
