//! Long and repeated use: histories of one reader, very many items, very far places, pipes.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_client::mb_text;
use crate::p_meta::*;
use crate::p_more::{large_lens, lens, text};
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
use claxon::FlacReader;
use std::cell::RefCell;
use std::io::{self, Cursor, ErrorKind, Read};
use std::rc::Rc;
use std::sync::OnceLock;

// ------------------------------------------------------------------ histories of a frame reader
/// An input whose content the harness replaces between calls.
#[derive(Clone)]
struct Swap(Rc<RefCell<(&'static [u8], usize, Option<usize>)>>);
impl Swap {
    fn new() -> Swap { Swap(Rc::new(RefCell::new((&[], 0, None)))) }
    fn set(&self, b: &'static [u8], err: Option<usize>) { *self.0.borrow_mut() = (b, 0, err); }
    fn take(&mut self, n: usize) -> io::Result<Option<&'static [u8]>> {
        let mut s = self.0.borrow_mut();
        if let Some(e) = s.2 { if s.1 + n > e || n == 0 && s.1 >= e { return Err(io::Error::new(ErrorKind::TimedOut, "later")); } }
        if n > s.0.len() - s.1 { return Ok(None); }
        s.1 += n;
        Ok(Some(&s.0[s.1 - n..s.1]))
    }
}
fn short() -> io::Error { io::Error::new(ErrorKind::UnexpectedEof, "end of input") }
impl ReadBytes for Swap {
    fn read_u8(&mut self) -> io::Result<u8> { self.take(1)?.map(|b| b[0]).ok_or_else(short) }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { Ok(self.take(1)?.map(|b| b[0])) }
    fn read_into(&mut self, buf: &mut [u8]) -> io::Result<()> { let b = self.take(buf.len())?.ok_or_else(short)?; buf.copy_from_slice(b); Ok(()) }
    fn skip(&mut self, n: u32) -> io::Result<()> { self.take(n as usize)?.ok_or_else(short).map(|_| ()) }
}
/// 0: audio, 1: damaged, 2: ill-formed subframe, 3: ill-formed header, 4: end or source error.
struct Ev { what: &'static str, bytes: Vec<u8>, err: Option<usize>, want: Ob, class: u8 }
fn with_crc(mut v: Vec<u8>) -> Vec<u8> { let c = crc16(&v); v.extend(c.to_be_bytes()); v }
fn events() -> &'static [Ev] {
    static C: OnceLock<Vec<Ev>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        let mut good = |what: &'static str, chan: Chan, bps: u32, variable: bool, number: u64, pcm: Vec<Vec<i64>>, subs: Vec<Sub>| -> Vec<u8> {
            let b = quick_frame(chan, bps, variable, number, &pcm, &subs).expect(what);
            let blk = Blk { time: number, dur: pcm[0].len() as u32, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
            v.push(Ev { what, bytes: b.clone(), err: None, want: Ob::Blk(blk), class: 0 });
            b
        };
        let ws = |n: usize, bps: u32, c: usize, seed: usize| -> Vec<Vec<i64>> { (0..c).map(|i| wave(n, bps, i, seed)).collect() };
        let a = good("mono verbatim 16", Chan::Ind(1), 16, false, 0, ws(16, 16, 1, 1), vec![sub(Kind::Verbatim)]);
        let st = good("stereo verbatim 16", Chan::Ind(2), 16, true, 77, ws(16, 16, 2, 2), vec![sub(Kind::Verbatim)]);
        good("stereo fixed 32", Chan::Ind(2), 16, true, 900, ws(32, 14, 2, 3), vec![sub(Kind::Fixed(2, res(true, 2, K::Auto)))]);
        good("left-side 64", Chan::LS, 16, true, 1 << 20, ws(64, 14, 2, 4), vec![sub(Kind::Fixed(1, res(true, 0, K::Auto))), sub(Kind::Fixed(3, res(true, 0, K::Auto)))]);
        good("right-side 33", Chan::RS, 12, false, 0, ws(33, 11, 2, 5), vec![sub(Kind::Fixed(4, res(true, 0, K::Auto))), sub(Kind::Verbatim)]);
        let ms = good("mid-side lpc 40", Chan::MS, 24, true, 5, ws(40, 20, 2, 6), vec![sub(lpc(&[3, -1], 4, 1, res(true, 1, K::Auto))), sub(lpc(&[1; 16], 6, 4, res(true, 0, K::Auto)))]);
        good("eight channels 16", Chan::Ind(8), 8, false, 0, ws(16, 7, 8, 7), vec![sub(Kind::Fixed(1, res(true, 0, K::Auto))), sub(Kind::Verbatim)]);
        good("one sample", Chan::Ind(1), 20, true, 3, vec![vec![-5]], vec![sub(Kind::Verbatim)]);
        good("constant 4096", Chan::Ind(1), 16, true, 40960, vec![vec![-77; 4096]], vec![sub(Kind::Constant)]);
        good("stereo constant 576", Chan::Ind(2), 8, false, 0, vec![vec![1; 576], vec![-1; 576]], vec![sub(Kind::Constant)]);
        good("wasted bits 16", Chan::Ind(1), 16, true, 4, vec![wave(16, 10, 0, 8).iter().map(|x| x << 4).collect()], vec![Sub { kind: Kind::Fixed(1, res0()), wasted: 4 }]);
        let mut bad = |what: &'static str, bytes: Vec<u8>, err: Option<usize>, e: Option<E>, class: u8| v.push(Ev { what, bytes, err, want: match e { Some(e) => Ob::Err(e), None => Ob::End }, class });
        let change = |b: &[u8], f: &dyn Fn(&mut Vec<u8>)| { let mut c = b.to_vec(); f(&mut c); c };
        // damage
        let last = a.len() - 1;
        bad("mono, frame checksum +1", change(&a, &|b| b[last] = b[last].wrapping_add(1)), None, Some(E::Format), 1);
        bad("mono, frame checksum inverted", change(&a, &|b| { b[last] = !b[last]; b[last - 1] = !b[last - 1] }), None, Some(E::Format), 1);
        bad("mono, a sample changed", change(&a, &|b| b[12] ^= 0x10), None, Some(E::Format), 1);
        bad("stereo, a sample changed", change(&st, &|b| b[40] ^= 0x01), None, Some(E::Format), 1);
        bad("mid-side, frame checksum changed", change(&ms, &|b| { let n = b.len(); b[n - 1] ^= 0x80 }), None, Some(E::Format), 1);
        let hl = 7; // header of a and st: 4 bytes, number, size, checksum
        bad("mono, header checksum wrong", { let mut c = a[..a.len() - 2].to_vec(); c[hl - 1] ^= 1; with_crc(c) }, None, Some(E::Format), 1);
        bad("stereo, header checksum inverted", { let mut c = st[..st.len() - 2].to_vec(); let k = Hdr::new(16, Chan::Ind(2), 16, true, 77).bytes().len() - 1; c[k] = !c[k]; with_crc(c) }, None, Some(E::Format), 1);
        // headers
        let hdr = |f: &dyn Fn(&mut Hdr)| { let mut h = Hdr::new(16, Chan::Ind(1), 16, false, 0); f(&mut h); let mut b = h.bytes(); b.extend(&a[hl..a.len() - 2]); with_crc(b) };
        bad("no sync code", hdr(&|h| h.b0 = 0xfe), None, Some(E::Format), 3);
        bad("half a sync code", hdr(&|h| h.b1 = 0xf0), None, Some(E::Format), 3);
        bad("reserved bit 1", hdr(&|h| h.b1 |= 2), None, Some(E::Format), 3);
        bad("reserved bit 2", hdr(&|h| h.res = 1), None, Some(E::Format), 3);
        bad("block size code 0", hdr(&|h| h.bs_code = 0), None, Some(E::Format), 3);
        bad("rate code 15", hdr(&|h| h.sr_code = 15), None, Some(E::Format), 3);
        bad("channel code 11", hdr(&|h| h.ch_code = 11), None, Some(E::Format), 3);
        bad("sample size code 3", hdr(&|h| h.bps_code = 3), None, Some(E::Format), 3);
        bad("sample size code 0", hdr(&|h| h.bps_code = 0), None, Some(E::Unsup), 3);
        bad("number starting with a continuation byte", hdr(&|h| h.num = vec![0x80]), None, Some(E::Format), 3);
        // subframes
        let sf = |f: &dyn Fn(&mut BitW)| { let mut w = BitW::new(); f(&mut w); let mut b = Hdr::new(16, Chan::Ind(1), 16, true, 0).bytes(); b.extend(&w.v); b.extend([0x55; 40]); with_crc(b) };
        bad("padding bit", sf(&|w| w.put(0x80, 8)), None, Some(E::Format), 2);
        bad("reserved type 2", sf(&|w| w.put(0x04, 8)), None, Some(E::Format), 2);
        bad("reserved type 13", sf(&|w| w.put(13 << 1, 8)), None, Some(E::Format), 2);
        bad("reserved type 17", sf(&|w| w.put(17 << 1, 8)), None, Some(E::Format), 2);
        bad("all bits wasted", sf(&|w| { w.put(3, 8); w.unary(15) }), None, Some(E::Format), 2);
        bad("order beyond the block", sf(&|w| w.put((32 + 16) << 1, 8)), None, Some(E::Format), 2);
        bad("precision code 15", sf(&|w| { w.put(32 << 1, 8); w.put(9, 16); w.put(15, 4); w.put(1, 5) }), None, Some(E::Format), 2);
        bad("negative shift", sf(&|w| { w.put(32 << 1, 8); w.put(9, 16); w.put(3, 4); w.put(0x1f, 5); w.put(1, 4) }), None, Some(E::Unsup), 2);
        bad("residual method 2", sf(&|w| { w.put(8 << 1, 8); w.put(2, 2) }), None, Some(E::Format), 2);
        bad("partition order 5 of 16 samples", sf(&|w| { w.put(8 << 1, 8); w.put(0, 2); w.put(5, 4); w.put(1, 4) }), None, Some(E::Format), 2);
        bad("escape", sf(&|w| { w.put(8 << 1, 8); w.put(0, 2); w.put(0, 4); w.put(15, 4); w.put(5, 5) }), None, Some(E::Unsup), 2);
        // ends and errors
        bad("nothing", vec![], None, None, 4);
        for (what, n) in [("first byte only", 1usize), ("half a header", 4), ("header only", hl), ("half a frame", a.len() / 2), ("frame without its last byte", a.len() - 1)] { bad(what, a[..n].to_vec(), None, Some(EOFE), 4); }
        for (what, n) in [("error at once", 0usize), ("error in the header", 3), ("error in the audio", 15), ("error before the checksum", a.len() - 2), ("error in the checksum", a.len() - 1)] { bad(what, a.clone(), Some(n), Some(E::Io(ErrorKind::TimedOut)), 4); }
        v
    })
}
/// One call; judged if its class is among those asked for.
fn step(fr: &mut FrameReader<Swap>, sw: &Swap, e: &'static Ev, buf: Vec<i32>) -> Result<(Result<(), String>, Vec<i32>), Viol> {
    sw.set(&e.bytes, e.err);
    nopanic(&e.bytes, || match (fr.read_next_or_eof(buf), &e.want) {
        (Ok(Some(b)), Ob::Blk(w)) => (same(&b, w), b.into_buffer()),
        (Ok(None), Ob::End) => (Ok(()), vec![]),
        (Err(x), Ob::Err(w)) if ec(&x) == *w => (Ok(()), vec![]),
        (Ok(Some(b)), w) => (Err(format!("got {}, expected {}", Ob::Blk(blk(&b)).short(), w.short())), b.into_buffer()),
        (Ok(None), w) => (Err(format!("got the end, expected {}", w.short())), vec![]),
        (Err(x), w) => (Err(format!("got {:?}, expected {}", x, w.short())), vec![]),
    })
}
fn buffer(mode: usize, recycled: Vec<i32>, e: &Ev) -> Vec<i32> {
    let need = if let Ob::Blk(b) = &e.want { b.data.len() } else { 16 };
    match mode {
        0 => recycled,
        1 => vec![],
        2 => { let mut b = vec![0x5a5a_5a5a; need / 2]; b.reserve(4 * need); b }
        _ => vec![-1; 2 * need + 1],
    }
}
fn histories(ch: &mut Ch, class: u8) -> R {
    let ev = events();
    let mine: Vec<usize> = (0..ev.len()).filter(|&i| ev[i].class == class).collect();
    let depth = ch.t(4, 5);
    let mut seq: Vec<usize> = (0..depth - 2).map(|_| ch.choose(ev.len())).collect();
    // The last two are looped over here.
    seq.push(0); seq.push(0);
    for b in 0..ev.len() { for &c in &mine {
        seq[depth - 2] = b; seq[depth - 1] = c;
        for mode in 0..4 {
            let sw = Swap::new();
            let mut fr = FrameReader::new(sw.clone());
            let mut buf = vec![];
            for (k, &i) in seq.iter().enumerate() {
                let e = &ev[i];
                let (r, b) = step(&mut fr, &sw, e, buffer(mode, buf, e))?;
                buf = b;
                if let Err(m) = r { if e.class == class { return violb(format!("{}, read {} of {:?} with one reader (buffers {}): {}", e.what, k, seq.iter().map(|&i| ev[i].what).collect::<Vec<_>>(), mode, m), &e.bytes); } }
            }
            ch.steps(depth as u64);
        }
        ch.execs(4, 4);
        ch.state(seq.iter().fold(class as u64, |a, &x| mix(a, x as u64)));
    } }
    ch.sample(|| format!("{:?}", seq.iter().map(|&i| ev[i].what).collect::<Vec<_>>()));
    Ok(())
}
pub fn hist_audio(ch: &mut Ch) -> R { histories(ch, 0) }
pub fn hist_damaged(ch: &mut Ch) -> R { histories(ch, 1) }
pub fn hist_subframes(ch: &mut Ch) -> R { histories(ch, 2) }
pub fn hist_headers(ch: &mut Ch) -> R { histories(ch, 3) }
pub fn hist_ends(ch: &mut Ch) -> R { histories(ch, 4) }
/// The same event again and again, then another one.
fn repeated(ch: &mut Ch, class: u8) -> R {
    let ev = events();
    let x = ch.choose(ev.len());
    let all: Vec<usize> = (0..ev.len()).filter(|&i| ev[i].class == class).collect();
    let ks: Vec<usize> = (1..=ch.t(20, 70)).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect();
    let run = |k: usize, ys: &[usize], ch: &mut Ch| -> R {
        let sw = Swap::new();
        let mut fr = FrameReader::new(sw.clone());
        let mut buf = vec![];
        for i in 0..k { let (r, b) = step(&mut fr, &sw, &ev[x], buf)?; buf = b; if i & 4095 == 0 { heartbeat(); } if let Err(m) = r { if ev[x].class == class { return violb(format!("{}, {} times before with the same reader: {}", ev[x].what, i, m), &ev[x].bytes); } } }
        for &y in ys { let (r, b) = step(&mut fr, &sw, &ev[y], buf)?; buf = b; if let Err(m) = r { return violb(format!("{}, after {} times {} with the same reader: {}", ev[y].what, k, ev[x].what, m), &ev[y].bytes); } }
        ch.exec(true);
        ch.steps(k as u64);
        Ok(())
    };
    for &y in &all { for &k in &ks { run(k, &[y], ch)?; } ch.state(mix(x as u64, y as u64)); }
    let slow = if let Ob::Blk(b) = &ev[x].want { b.data.len() > 300 } else { false };
    if !slow || !ch.quick() { run(66_000, &all, ch)?; }
    ch.sample(|| format!("{} up to 66000 times, then one of {} others", ev[x].what, all.len()));
    Ok(())
}
pub fn rep_audio(ch: &mut Ch) -> R { repeated(ch, 0) }
pub fn rep_damaged(ch: &mut Ch) -> R { repeated(ch, 1) }
pub fn rep_subframes(ch: &mut Ch) -> R { repeated(ch, 2) }
pub fn rep_headers(ch: &mut Ch) -> R { repeated(ch, 3) }
pub fn rep_ends(ch: &mut Ch) -> R { repeated(ch, 4) }

// ------------------------------------------------------------------ C07: every length of the recycled buffer
pub fn buffer_lengths(ch: &mut Ch) -> R {
    let c = ch.pick(&[Chan::Ind(1), Chan::Ind(2), Chan::Ind(3), Chan::Ind(8), Chan::MS, Chan::RS]);
    let n = ch.pick(&[1usize, 2, 3, 12, 16, 20, 64]);
    let k = ch.choose(3);
    let kind = match k { 0 => Kind::Constant, 1 => Kind::Verbatim, _ => Kind::Fixed(n.min(2), res(true, 0, K::Auto)) };
    let pcm: Vec<Vec<i64>> = (0..c.n()).map(|i| if k == 0 { vec![40 - i as i64; n] } else { wave(n, 12, i, n) }).collect();
    let b = quick_frame(c, 16, true, 9, &pcm, &[sub(kind)]).expect("frame");
    let w = Blk { time: 9, dur: n as u32, ch: c.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
    let need = w.data.len();
    for len in 0..=4 * need + 3 { for spare in [0usize, 1, need / 2, need, 4 * need] {
        let mut buf: Vec<i32> = Vec::with_capacity(len + spare);
        buf.extend((0..len).map(|i| 0x7000_0000 + i as i32));
        let r = nopanic(&b, || match FrameReader::new(SliceRb::new(&b)).read_next_or_eof(buf) {
            Ok(Some(x)) => same(&x, &w).and_then(|_| { let v = x.into_buffer(); if v[..] == w.data[..] { Ok(()) } else { Err(format!("into_buffer gives {} values", v.len())) } }),
            Ok(None) => Err("end".into()), Err(e) => Err(format!("{:?}", e)) })?;
        ch.exec(true);
        if let Err(m) = r { return violb(format!("{} x {:?}, buffer of length {} with room for {} more: {}", n, c, len, spare, m), &b); }
    } }
    ch.state(hash_bytes(1, &b));
    ch.sample(|| format!("{} samples {:?}, buffers of every length up to {}", n, c, 4 * need + 3));
    Ok(())
}

// ------------------------------------------------------------------ C08
fn drop_stream() -> &'static Built {
    static C: OnceLock<Built> = OnceLock::new();
    C.get_or_init(|| {
        let f = |chan: Chan, n: usize, seed: usize, k: Kind| Fr { chan, bps: 16, pcm: (0..chan.n()).map(|c| wave(n, 14, c, seed)).collect(), subs: vec![sub(k)] };
        build("drops", Info { minb: 16, maxb: 300, ..Info::new(16, 2, 16, 0) }, vec![], true, 0, vec![
            f(Chan::Ind(1), 300, 1, Kind::Verbatim), f(Chan::MS, 40, 2, Kind::Fixed(1, res(true, 0, K::Auto))), f(Chan::Ind(3), 17, 3, Kind::Verbatim),
            f(Chan::Ind(2), 100, 4, Kind::Verbatim), f(Chan::Ind(1), 1, 5, Kind::Verbatim), f(Chan::Ind(1), 90, 6, Kind::Verbatim)])
    })
}
/// Frames begun by taking k samples from frame `at`.
fn begun(l: &[usize], at: usize, k: usize) -> usize { let mut n = 0; let mut i = at; while n < k && i < l.len() { n += l[i]; i += 1; } i }
/// Sample iterators dropped after any number of samples.
pub fn drops(ch: &mut Ch) -> R {
    let b = drop_stream();
    let fr: Vec<Vec<i32>> = b.blks.iter().map(inter).collect();
    let l: Vec<usize> = fr.iter().map(|x| x.len()).collect();
    let total: usize = l.iter().sum();
    let k1 = ch.range(0, total + 1);
    let how = ch.choose(4);
    let step = ch.t(7, 1);
    let mut k2s: Vec<usize> = (0..=20).chain((0..3).map(|i| k1 + i)).chain((0..total + 1).skip(k1 % step).step_by(step)).collect();
    k2s.sort(); k2s.dedup();
    for &k2 in &k2s {
        let r = nopanic(&b.bytes, || -> Result<(), String> {
            let mut r = FlacReader::new(Cursor::new(&b.bytes[..])).map_err(|e| format!("{:?}", e))?;
            let mut at = 0;
            let take = |it: &mut dyn Iterator<Item = claxon::Result<i32>>, k: usize, at: &mut usize, name: &str| -> Result<(), String> {
                let want = fr[*at..].iter().flatten();
                for (i, w) in want.take(k).enumerate() { match it.next() { Some(Ok(x)) if x == *w => {} x => return Err(format!("{}: sample {} from frame {} is {:?}, expected {}", name, i, *at, x.map(|x| x.map_err(|e| ec(&e))), w)) } }
                if k > l[*at..].iter().sum() { if let Some(x) = it.next() { return Err(format!("{}: more samples than there are: {:?}", name, x.map_err(|e| ec(&e)))); } }
                *at = begun(&l, *at, k);
                Ok(())
            };
            take(&mut r.samples(), k1, &mut at, "first iterator")?;
            if how & 1 == 1 {
                let mut bl = r.blocks();
                match (bl.read_next_or_eof(vec![]), b.blks.get(at)) { (Ok(Some(x)), Some(w)) => { same(&x, w)?; at += 1 } (Ok(None), None) => {} (x, w) => return Err(format!("block {}: {:?}, expected {:?}", at, x.map(|y| y.map(|z| blk(&z))).map_err(|e| ec(&e)), w.map(|x| x.dur))) }
            }
            take(&mut r.samples(), k2, &mut at, "second iterator")?;
            if how & 2 == 2 { let n = l[at..].iter().sum::<usize>() + 1; take(&mut r.into_samples(), n, &mut at, "owning iterator") } else {
                take(&mut r.samples(), 0, &mut at, "idle iterator")?;
                let n = l[at..].iter().sum::<usize>() + 1;
                take(&mut r.samples(), n, &mut at, "third iterator")
            }
        })?;
        ch.exec(true);
        if let Err(m) = r { return violb(format!("{} samples, {}then {} samples, then {}: {}", k1, if how & 1 == 1 { "a block, " } else { "" }, k2, if how & 2 == 2 { "an owning iterator" } else { "the rest" }, m), &b.bytes); }
    }
    ch.steps(k2s.len() as u64 * 3);
    ch.state(mix(k1 as u64, how as u64));
    ch.sample(|| format!("{} samples taken, iterator dropped, way {}, and {} second lengths", k1, how, k2s.len()));
    Ok(())
}
fn long_stream() -> &'static (Vec<u8>, usize) {
    static C: OnceLock<(Vec<u8>, usize)> = OnceLock::new();
    C.get_or_init(|| {
        let n = 70_000usize;
        let mut v = head(&Info { minb: 16, maxb: 16, ..Info::new(16, 1, 16, 0) }, &[]);
        for i in 0..n { v.extend(quick_frame(Chan::Ind(2), 16, false, i as u64, &[vec![i as i64 % 30_000; 16], vec![-1 - (i as i64 % 30_000); 16]], &[sub(Kind::Constant)]).unwrap()); }
        (v, n)
    })
}
/// 70 000 frames, by blocks, samples, and iterators made anew for each.
pub fn long_runs(ch: &mut Ch) -> R {
    let (v, n) = long_stream();
    let how = ch.choose(5);
    let r = nopanic(&v[..100], || -> Result<(), String> {
        let mut r = FlacReader::new(&v[..]).map_err(|e| format!("{:?}", e))?;
        let s = |i: usize, k: usize| -> i32 { let x = i as i32 % 30_000; if k % 2 == 0 { x } else { -1 - x } };
        let mut buf = vec![];
        for i in 0..*n {
            if i & 4095 == 0 { heartbeat(); }
            let mut block = |r: &mut FlacReader<&[u8]>| -> Result<(), String> {
                match r.blocks().read_next_or_eof(std::mem::take(&mut buf)) {
                    Ok(Some(b)) => { same(&b, &Blk { time: 16 * i as u64, dur: 16, ch: 2, data: [vec![s(i, 0); 16], vec![s(i, 1); 16]].concat() }).map_err(|m| format!("frame {}: {}", i, m))?; buf = b.into_buffer(); Ok(()) }
                    x => Err(format!("frame {}: {:?}", i, x.map(|_| "end").map_err(|e| ec(&e)))) }
            };
            let few = |r: &mut FlacReader<&[u8]>, k: usize| -> Result<(), String> { let mut it = r.samples(); for j in 0..k { match it.next() { Some(Ok(x)) if x == s(i, j) => {} x => return Err(format!("frame {} sample {}: {:?}", i, j, x.map(|x| x.map_err(|e| ec(&e))))) } } Ok(()) };
            match how { 0 => block(&mut r)?, 1 => few(&mut r, 1 + i % 32)?, 2 => { few(&mut r, 0)?; few(&mut r, 32)? } 3 if i % 3 == 0 => block(&mut r)?, 3 => few(&mut r, 1)?, _ => break }
        }
        if how == 4 {
            let mut it = r.into_samples();
            for i in 0..*n { for j in 0..32 { match it.next() { Some(Ok(x)) if x == s(i, j) => {} x => return Err(format!("frame {} sample {}: {:?}", i, j, x.map(|x| x.map_err(|e| ec(&e))))) } } if i & 4095 == 0 { heartbeat(); } }
            return if it.next().is_none() { Ok(()) } else { Err("no end".into()) };
        }
        match r.blocks().read_next_or_eof(vec![]) { Ok(None) => Ok(()), _ => Err("no end".into()) }
    })?;
    ch.execs(*n as u64, *n as u64);
    ch.state(how as u64);
    if let Err(m) = r { return violb(m, &v[..200]); }
    ch.sample(|| format!("{} frames in way {}", n, how));
    Ok(())
}

// ------------------------------------------------------------------ C13, C14
/// Multi-byte and illegal characters at far places.
pub fn far_places(ch: &mut Ch) -> R {
    let ps: Vec<usize> = { let mut v: Vec<usize> = vec![]; for k in 6..17u32 { for d in -4i64..=4 { v.push(((1i64 << k) + d) as usize); } } for m in [192usize, 384, 768, 1000, 1536, 3072, 5000, 6144, 10_000, 12_288, 20_000, 24_576, 49_152, 50_000, 60_000, 70_000] { for d in 0..4 { v.push(m - d); } } v };
    let p = ps[ch.choose(ps.len())];
    let form = ch.choose(3);
    let bad: &[&[u8]] = &[b"", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xe2\x82\xac", b"\xff", b"\xe2\x82", b"\xed\xa0\x80", b"\x7f", b"\x1f", b"\x80", b"\xc3"];
    let t = text(p, 1);
    for x in bad { for tail in [0usize, 1, 7, 3000] {
        let s = [&t[..], x, &text(tail, 2)[..]].concat();
        let b = match form { 0 => vorbis(&s, &[b"a=b"]), 1 => vorbis(b"v", &[b"a=b", &[&s[..], b"=value"].concat(), b"c=d"]), _ => vorbis(b"v", &[b"a=b", &[b"k=", &s[..]].concat()]) };
        vc_check(ch, b.len() as u32, &b, if tail == 1 { 0 } else { 2 })?;
    } }
    heartbeat();
    ch.sample(|| format!("{} characters behind {} bytes of text in form {}, 4 lengths of what follows", bad.len(), p, form));
    Ok(())
}
/// Very many comments.
pub fn many_comments(ch: &mut Ch) -> R {
    let mut l: Vec<usize> = vec![];
    for k in 13..18u32 { for d in -2i64..=2 { l.push(((1i64 << k) + d) as usize); } }
    l.extend([9_999, 10_000, 10_001, 49_152, 50_000, 65_535, 70_000, 99_999, 100_000, 100_001, 140_000, 1 << 18, 300_000, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    let n = l[ch.choose(l.len())];
    let kind = ch.choose(2);
    let (unit, tag): (&[u8], (&str, &str)) = if kind == 0 { (b"=", ("", "")) } else { (b"n=v", ("n", "v")) };
    if n * (4 + unit.len()) + 100 > 10 << 20 { return Ok(()); }
    // A few that stand out, near the start, the middle and the end.
    let odd: Vec<usize> = vec![0, 1, n / 3, n / 2, n - 2, n - 1];
    let c = |i: usize| -> Vec<u8> { if odd.contains(&i) { format!("Odd={}", i).into_bytes() } else { unit.to_vec() } };
    let mut b = vec![1, 0, 0, 0, b'v'];
    b.extend((n as u32).to_le_bytes());
    let mut last = 0;
    for i in 0..n { let s = c(i); last = b.len(); b.extend((s.len() as u32).to_le_bytes()); b.extend(&s); }
    let m = nopanic(&b[..100], || metadata::read_metadata_block(&mut Cursor::new(&b[..]), 4, b.len() as u32))?;
    match m {
        Ok(MetadataBlock::VorbisComment(v)) => {
            if v.vendor != "v" || v.comments.len() != n { return violb(format!("{} comments reported as {}", n, v.comments.len()), &b[..200]); }
            for i in 0..n { let w = c(i); let sep = if odd.contains(&i) { 3 } else { unit.len() / 2 }; if v.comments[i].0.as_bytes() != &w[..] || v.comments[i].1 != sep { return violb(format!("comment {} of {} is {:?}", i, n, v.comments[i]), &b[..200]); } }
        }
        Ok(_) => return violb("another block", &b[..200]),
        Err(e) => return violb(format!("{} comments: {:?}", n, e), &b[..200]),
    }
    heartbeat();
    let f = head(&Info::new(4096, 2, 16, 0), &[(4, b.clone())]);
    let r = nopanic(&b[..100], || -> Result<(), String> {
        let r = FlacReader::new(&f[..]).map_err(|e| format!("{:?}", e))?;
        let mut it = r.tags();
        for i in 0..n { if it.len() != n - i { return Err(format!("{} tags left instead of {}", it.len(), n - i)); } let s = format!("{}", i); let w = if odd.contains(&i) { ("Odd", &s[..]) } else { tag }; if it.next() != Some(w) { return Err(format!("tag {} differs", i)); } }
        if it.next().is_some() { return Err("one tag too many".into()); }
        let mut o = odd.clone(); o.dedup();
        if !r.get_tag("oDD").map(|s| s.to_string()).eq(o.iter().map(|i| i.to_string())) { return Err("lookup of the odd ones differs".into()); }
        if r.get_tag(tag.0).count() != n - o.len() || r.get_tag("none").count() != 0 { return Err("lookup of the others differs".into()); }
        Ok(())
    })?;
    if let Err(m) = r { return violb(format!("{} comments: {}", n, m), &b[..200]); }
    // The count one off, and the last length one off.
    for (at, d) in [(5usize, 1u32), (5, u32::MAX), (5, 1 << 16), (last, 1), (last, u32::MAX)] {
        let mut x = b.clone();
        let v = u32::from_le_bytes([x[at], x[at + 1], x[at + 2], x[at + 3]]).wrapping_add(d);
        x[at..at + 4].copy_from_slice(&v.to_le_bytes());
        let e = nopanic(&b[..100], || metadata::read_metadata_block(&mut Cursor::new(&x[..]), 4, x.len() as u32).map(|_| ()).map_err(|e| ec(&e)))?;
        ch.exec(true);
        if e != Err(E::Format) { return violb(format!("{} comments, number at {} off by {:#x}: {:?}", n, at, d, e), &b[..200]); }
        heartbeat();
    }
    ch.execs(2, 2);
    ch.state(mix(n as u64, kind as u64));
    ch.sample(|| format!("{} comments of kind {}", n, kind));
    Ok(())
}
/// Lookups of every sort of name in comments with multi-byte values.
pub fn tag_texts(ch: &mut Ch) -> R {
    let pieces = ["", "a", "A", "\u{e9}", "\u{20ac}", "\u{1f600}", "b\u{e9}", "\u{e9}c", "aa\u{20ac}a", "\u{1f600}\u{e9}", "=", "a=", "=\u{e9}"];
    let names = ["", "a", "A", "ab", "B c", "abc", "longer name"];
    let i = ch.choose(names.len());
    let (v1, v2) = (ch.pick(&pieces), ch.pick(&pieces));
    let tags = vec![(names[i].to_string(), format!("{}{}", v1, v2)), (names[(i + 1) % names.len()].to_string(), format!("{}x{}", v2, v1))];
    let mut needles: Vec<String> = vec![];
    for (a, b) in &tags {
        let s = format!("{}={}", a, b);
        for (k, _) in s.char_indices() { needles.push(s[..k].to_string()); needles.push(s[k..].to_string()); needles.push(s[..k].to_ascii_uppercase()); }
        needles.push(s);
    }
    for c in ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "=", "\u{212a}"] { for k in 1..=9 { needles.push(c.repeat(k)); needles.push(format!("a{}", c.repeat(k))); needles.push(format!("{}a", c.repeat(k))); } }
    tag_check(ch, &tags, &needles)?;
    heartbeat();
    ch.sample(|| format!("{:?} x {} names", tags, needles.len()));
    Ok(())
}

// ------------------------------------------------------------------ C15
pub fn many_blocks(ch: &mut Ch) -> R {
    let n = ch.pick(&[30usize, 62, 63, 64, 65, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10_000, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000, 1 << 20]);
    let ty = ch.pick(&[1u8, 2, 3, 5, 6, 7, 126, 99]);
    let body: &[u8] = if ty == 2 { b"idid" } else if ch.flag() { b"xyz" } else { b"" };
    let at = ch.choose(3);
    let mut f = b"fLaC".to_vec();
    f.extend(block(false, 0, &Info::new(16, 2, 16, 32).bytes()));
    let vc = block(false, 4, &vorbis(b"ve", &[b"A=b"]));
    for i in 0..n { if i == [0, n / 2, n][at] { f.extend(&vc); } f.extend(block(false, if ty == 99 { [1u8, 6, 3, 9][i % 4] } else { ty }, body)); }
    if at == 2 { f.extend(&vc); }
    f.extend(block(true, 2, b"abcdef"));
    let end = f.len();
    f.extend(audio());
    let mut c = Cursor::new(&f[4..]);
    let (count, info, vcs, last, err, more) = nopanic(&f[..100], || {
        let mut it = MetadataBlockReader::new(&mut c);
        let (mut count, mut info, mut vcs, mut last, mut err) = (0usize, 0, 0, false, None);
        while count < n + 10 { match it.next() { None => break, Some(Err(e)) => { err = Some(ec(&e)); break } Some(Ok(m)) => { count += 1; if count & 4095 == 0 { heartbeat(); } last = false; match m { MetadataBlock::StreamInfo(_) => info += 1, MetadataBlock::VorbisComment(_) => vcs += 1, MetadataBlock::Application { id, .. } => last = id == u32::from_be_bytes(*b"abcd"), _ => {} } } } }
        let more = it.next().is_some();
        (count, info, vcs, last, err, more)
    })?;
    ch.exec(true);
    if (count, info, vcs, last, err, more) != (n + 3, 1, 1, true, None, false) || c.position() as usize + 4 != end { return violb(format!("{} blocks of type {} ({} bytes each): the iterator yields {} blocks ({} stream infos, {} comments), error {:?}, more after the end {}, position {} of {}", n, ty, body.len(), count, info, vcs, err, more, c.position() + 4, end), &f[..200]); }
    for (mo, vc) in [(false, true), (false, false), (true, true), (true, false)] {
        let r = nopanic(&f[..100], || FlacReader::new_ext(&f[..], opts(mo, vc)).map(|mut r| (r.vendor().map(|s| s.to_string()), r.tags().count(), if mo { 3 } else { drain(&mut r.blocks(), 5).len() })).map_err(|e| ec(&e)))?;
        ch.exec(true);
        heartbeat();
        if r != Ok(if vc { (Some("ve".into()), 1, 3) } else { (None, 0, 3) }) { return violb(format!("{} blocks of type {} ({} bytes each), metadata_only {} read_vorbis_comment {}: {:?}", n, ty, body.len(), mo, vc, r), &f[..200]); }
    }
    // With the rest missing it is a truncation, under the options that have to read on.
    let r = nopanic(&f[..100], || FlacReader::new(&f[..end - 5]).map(|_| ()).map_err(|e| ec(&e)))?;
    if r != Err(EOFE) { return violb(format!("{} blocks of type {}, the last one cut short: {:?}", n, ty, r), &f[..200]); }
    ch.exec(true);
    ch.state(mix(mix(n as u64, ty as u64), at as u64 * 2 + body.len() as u64 % 2));
    ch.sample(|| format!("{} blocks of type {} with {} bytes each, the comments {}", n, ty, body.len(), ["first", "in the middle", "last"][at]));
    Ok(())
}

// ------------------------------------------------------------------ C07
/// Long strings and data, under two fillings of fresh memory.
pub fn memory_large(ch: &mut Ch) -> R {
    let max = (10usize << 20) - 64;
    let mut l: Vec<usize> = large_lens(ch.quick()).into_iter().filter(|&n| n <= max).collect();
    l.extend([200_000, 400_000, 1_000_000, 3_000_000, 5_000_000, max]);
    let n = l[ch.choose(l.len())];
    let ty = ch.choose(4);
    let t: Vec<u8> = (0..n).map(|i| b'a' + ((i as u32).wrapping_mul(2_654_435_761) >> 24) as u8 % 26).collect();
    let s = std::str::from_utf8(&t).unwrap();
    let (mt, body) = match ty { 0 => (2, [b"idid", &t[..]].concat()), 1 => (4, vorbis(&t, &[b"k=v"])), 2 => (4, vorbis(b"ve", &[&[b"k=", &t[..]].concat()])), _ => (4, vorbis(b"ve", &[&[&t[..], b"=v"].concat()])) };
    for p in [0xAAu8, 0x00] { for k in 0..3 {
        let got = nopanic(&body[..100], || poison(p, || {
            let len = body.len() as u32;
            match k { 0 => metadata::read_metadata_block(&mut Cursor::new(&body[..]), mt, len), 1 => metadata::read_metadata_block(&mut BufferedReader::new(&body[..]), mt, len), _ => metadata::read_metadata_block(&mut BufferedReader::new(Src::new(&body).chunk(Chunk::Uniform(1999))), mt, len) }
        }))?;
        heartbeat();
        let ok = match (&got, ty) {
            (Ok(MetadataBlock::Application { id, data }), 0) => *id == u32::from_be_bytes(*b"idid") && data[..] == t[..],
            (Ok(MetadataBlock::VorbisComment(v)), 1) => v.vendor == s && v.comments == [("k=v".to_string(), 1)],
            (Ok(MetadataBlock::VorbisComment(v)), 2) => v.vendor == "ve" && v.comments.len() == 1 && v.comments[0].1 == 1 && &v.comments[0].0[2..] == s,
            (Ok(MetadataBlock::VorbisComment(v)), 3) => v.vendor == "ve" && v.comments.len() == 1 && v.comments[0].1 == n && &v.comments[0].0[..n] == s,
            _ => false,
        };
        ch.exec(true);
        if !ok { return violb(format!("{} bytes in form {}, input {}, fresh memory {:#x}: {:.120}", n, ty, k, p, match got { Ok(_) => "other contents".to_string(), Err(e) => format!("{:?}", e) }), &body[..100]); }
    } }
    ch.state(mix(n as u64, ty as u64));
    ch.sample(|| format!("{} bytes in form {}", n, ty));
    Ok(())
}

// ------------------------------------------------------------------ C21
extern "C" { fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32; }
/// A named pipe that gets the stream item by item, each only when the one before has been handed out.
pub fn pipe(ch: &mut Ch) -> R {
    let list: Vec<&'static Built> = corpus().iter().chain(zoo().iter().step_by(40)).collect();
    let i = ch.choose(list.len());
    let way = ch.choose(4);
    let b = list[i];
    let path = std::env::temp_dir().join(format!("mc-c21-{}-{}-{}.fifo", std::process::id(), i, way));
    let _ = std::fs::remove_file(&path);
    let cp = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    if unsafe { mkfifo(cp.as_ptr(), 0o600) } != 0 { ch.sample(|| "no pipes can be made here".into()); return Ok(()); }
    // Open for both, so that neither side waits for the other.
    let w = std::fs::OpenOptions::new().read(true).write(true).open(&path);
    let r = match w { Err(e) => Ok(format!("cannot open the pipe: {}", e)).map(|_| ()), Ok(w) => pipe_run(b, way, &path, w) };
    let _ = std::fs::remove_file(&path);
    ch.exec(true);
    ch.state(mix(i as u64, way as u64));
    if let Err(m) = r { return violb(format!("{} through a named pipe, way {}: {}", b.name, way, m), &b.bytes); }
    ch.sample(|| format!("{} through a named pipe, way {}", b.name, way));
    Ok(())
}
fn pipe_run(b: &'static Built, way: usize, path: &std::path::Path, mut w: std::fs::File) -> Result<(), String> {
    use std::io::Write;
    use std::sync::mpsc::*;
    use std::time::Duration;
    let (tx, rx) = channel::<Result<Ob, E>>();
    let path = path.to_path_buf();
    let headless = b.frame_offs.first().copied().unwrap_or(b.bytes.len());
    w.write_all(&b.bytes[..headless]).map_err(|e| e.to_string())?;
    std::thread::scope(|s| {
        s.spawn(move || {
            let r = match way { 0 => guard(|| FlacReader::open(&path)), _ => guard(|| FlacReader::open_ext(&path, opts(false, way & 1 == 1))) };
            let mut r = match r { Ok(Ok(r)) => r, Ok(Err(e)) => { let _ = tx.send(Err(ec(&e))); return } Err(_) => { let _ = tx.send(Err(E::Format)); return } };
            let _ = tx.send(Ok(Ob::End));
            if way < 3 {
                let mut bl = r.blocks();
                loop { let o = next(&mut bl, vec![]); let stop = !matches!(o, Ob::Blk(_)); let _ = tx.send(Ok(o)); if stop { return; } }
            }
            let mut it = r.into_samples();
            for bk in &b.blks {
                let mut v = vec![];
                for _ in 0..bk.data.len() { match it.next() { Some(Ok(x)) => v.push(x), Some(Err(e)) => { let _ = tx.send(Err(ec(&e))); return } None => break } }
                let o = if v == inter(bk) { Ob::Blk(bk.clone()) } else { Ob::Blk(Blk { time: 0, dur: 0, ch: 0, data: v }) };
                let _ = tx.send(Ok(o));
            }
            let _ = tx.send(Ok(match it.next() { None => Ob::End, Some(Ok(_)) => Ob::Err(E::Format), Some(Err(e)) => Ob::Err(ec(&e)) }));
        });
        let wait = |what: &str| -> Result<Ob, String> {
            for _ in 0..40 { heartbeat(); match rx.recv_timeout(Duration::from_secs(1)) { Ok(Ok(o)) => return Ok(o), Ok(Err(e)) => return Err(format!("{}: {:?}", what, e)), Err(RecvTimeoutError::Disconnected) => return Err(format!("{}: gone", what)), Err(_) => {} } }
            Err(format!("{}: not handed out though all its bytes have arrived", what))
        };
        let r = (|| {
            wait("the metadata")?;
            for (k, o) in b.frame_offs.windows(2).enumerate() {
                w.write_all(&b.bytes[o[0]..o[1]]).map_err(|e| e.to_string())?;
                let got = wait(&format!("block {}", k))?;
                if got != Ob::Blk(b.blks[k].clone()) { return Err(format!("block {}: {}", k, got.short())); }
            }
            Ok(())
        })();
        drop(w);
        r?;
        match wait("the end")? { Ob::End => Ok(()), o => Err(format!("at the end: {}", o.short())) }
    })
}

// ------------------------------------------------------------------ C18, C01: long unary codes
/// Runs of zeros of up to 2^23 bits (2^26), terminated or cut.
pub fn long_unary(ch: &mut Ch) -> R {
    let mut l: Vec<u64> = vec![];
    for k in 9..=ch.t(23u32, 26) { for d in [-9i64, -8, -1, 0, 1, 7] { l.push(((1i64 << k) + d) as u64); } l.push(3 << (k - 1)); }
    l.extend([1000, 10_000, 100_000, 1_000_000, 5_000_000]);
    let q = l[ch.choose(l.len())];
    let off = ch.pick(&[0u32, 1, 3, 7]);
    let mut w = BitW::new();
    w.put(0x7f >> (7 - off), off);
    w.v.reserve(q as usize / 8 + 9);
    w.unary(q);
    w.put(0b1_0110_0101, 9);
    let d = w.v;
    let cut = (q as usize + off as usize) / 8; // the byte with the terminating one
    type BS<R> = claxon::input::Bitstream<R>;
    fn go<T: ReadBytes>(r: T, off: u32) -> io::Result<(u32, u32)> { let mut b = BS::new(r); if off > 0 { b.read_leq_u8(off)?; } let x = b.read_unary()?; Ok((x, b.read_leq_u16(9).map_or(u32::MAX, |x| x as u32))) }
    for k in 0..5 {
        let run = |d: &[u8]| -> Result<io::Result<(u32, u32)>, Viol> { heartbeat(); nopanic(&d[..d.len().min(20)], || match k { 0 => go(SliceRb::new(d), off), 1 => go(Cursor::new(d), off), 2 => go(BufferedReader::new(d), off), 3 => go(BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(1023)).scribble(0xff)), off), _ => { let mut c = Cursor::new(d); go(&mut c, off) } }) };
        let r = run(&d)?;
        if !matches!(r, Ok((x, 0b1_0110_0101)) if x as u64 == q) { return viol(format!("{} zeros at bit {} on reader {}: {:?}", q, off, k, r)); }
        for n in [cut, cut.saturating_sub(1), cut / 2] { match run(&d[..n])? { Err(e) if e.kind() == ErrorKind::UnexpectedEof => {} r => return viol(format!("{} zeros at bit {} cut after {} bytes, on reader {}: {:?}", q, off, n, k, r)) } }
        ch.execs(4, 4);
    }
    ch.state(mix(q, off as u64));
    ch.sample(|| format!("{} zeros from bit {}", q, off));
    Ok(())
}
/// Residuals of every magnitude with every Rice parameter, however long that makes the code.
pub fn long_codes(ch: &mut Ch) -> R {
    let rice2 = ch.flag();
    let k = ch.choose(if rice2 { 31 } else { 15 }) as u32;
    let j = ch.range(0, 23) as u32;
    let bps = 24;
    let mut list: Vec<i64> = vec![];
    for d in [-1i64, 0, 1] { let x = (1i64 << j) + d; list.push(x); list.push(-x); list.push(x + (x >> 1)); list.push(-x - (x >> 2)); }
    list.retain(|&x| x >= -(1 << 23) && x < 1 << 23);
    list.sort(); list.dedup();
    let old = QLIM.with(|q| q.replace(1 << 26));
    for (i, &x) in list.iter().enumerate() {
        for (chan, fixed) in [(Chan::Ind(1), true), (Chan::RS, false)] {
            if !fixed && i % 4 != 0 { continue; }
            let s: Vec<i64> = vec![0, x, -1, 5];
            let pcm: Vec<Vec<i64>> = if fixed { vec![s] } else { vec![s.clone(), s.iter().map(|&v| (v / 2 - v).max(-(1 << 23))).collect()] };
            let kind = Kind::Fixed(0, res(rice2, 0, K::Fixed(k)));
            let b = quick_frame(chan, bps, true, 0, &pcm, &[sub(kind.clone()), sub(Kind::Verbatim)]);
            let b = match b { Some(b) => b, None => continue };
            let w = Blk { time: 0, dur: 4, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
            heartbeat();
            let r = nopanic(&b[..b.len().min(100)], || match FrameReader::new(Cursor::new(&b[..])).read_next_or_eof(vec![]) { Ok(Some(y)) => same(&y, &w), Ok(None) => Err("end".into()), Err(e) => Err(format!("{:?}", e)) })?;
            ch.exec(true);
            if let Err(m) = r { return violb(format!("residual {} with parameter {} ({}): {}", x, k, if rice2 { "Rice2" } else { "Rice" }, m), &b[..b.len().min(5000)]); }
        }
    }
    QLIM.with(|q| q.set(old));
    ch.state(mix(k as u64 * 2 + rice2 as u64, j as u64));
    ch.sample(|| format!("residuals around 2^{}, parameter {}", j, k));
    Ok(())
}

// ------------------------------------------------------------------ C22
/// What has ended stays ended, however often one asks.
pub fn long_after(ch: &mut Ch) -> R {
    let i = ch.choose(6);
    let b = &corpus()[i];
    if b.blks.is_empty() { return Ok(()); }
    let how = ch.choose(4);
    let defect = ch.choose(4);
    let mut d = b.bytes.clone();
    let fail = match defect { 0 => false, 1 => { let n = d.len(); d[n - 1] ^= 1; true } 2 => { d.pop(); true } _ => { d[b.frame_offs[0]] = 0; true } };
    let n = ch.t(70_000, 1 << 20);
    let r = nopanic(&d, || -> Result<(), String> {
        let mut r = FlacReader::new(&d[..]).map_err(|e| format!("{:?}", e))?;
        let quiet = |it: &mut dyn Iterator<Item = claxon::Result<i32>>| -> Result<(), String> {
            let end = samples(it, 1 << 20).end;
            if end.is_err() != fail { return Err(format!("ends with {:?}", end)); }
            for k in 0..n { if let Some(x) = it.next() { return Err(format!("call {} after the end: {:?}", k, x.map_err(|e| ec(&e)))); } }
            Ok(())
        };
        match how {
            0 => quiet(&mut r.samples()),
            1 => quiet(&mut r.into_samples()),
            2 => { if fail { return Ok(()); } drain(&mut r.blocks(), 1000); for k in 0..n { let o = next(&mut r.blocks(), vec![]); if o != Ob::End { return Err(format!("call {} after the end: {}", k, o.short())); } } Ok(()) }
            _ => {
                let md = if fail { let mut m = d[4..b.frame_offs[0]].to_vec(); m.truncate(m.len() - 1); m } else { d[4..].to_vec() };
                let mut it = MetadataBlockReader::new(Cursor::new(&md[..]));
                let mut last = None;
                while let Some(x) = it.next() { last = Some(x.is_err()); if last == Some(true) { break; } }
                for k in 0..n { if let Some(x) = it.next() { return Err(format!("metadata, call {} after the end ({:?}): {}", k, last, mb_text(&x))); } }
                Ok(())
            }
        }
    })?;
    ch.execs(n as u64, n as u64);
    ch.state(mix(i as u64, how as u64 * 4 + defect as u64));
    heartbeat();
    if let Err(m) = r { return violb(format!("{}, way {}, defect {}: {}", b.name, how, defect, m), &d); }
    ch.sample(|| format!("{}, way {}, defect {}: {} calls after the end", b.name, how, defect, n));
    Ok(())
}

// ------------------------------------------------------------------ C06
/// A source that fails many times in a row.
struct Flaky<'a> { d: &'a [u8], pos: usize, at: usize, left: usize, piece: usize }
impl<'a> Read for Flaky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at && self.left > 0 { self.left -= 1; return Err(io::Error::new(ErrorKind::WouldBlock, "not yet")); }
        let n = buf.len().min(self.d.len() - self.pos).min(self.piece).min(if self.pos < self.at { self.at - self.pos } else { usize::MAX });
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn many_failures(ch: &mut Ch) -> R {
    let k = ch.pick(&[1usize, 2, 3, 4, 5, 8, 10, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 1000, 4096, 65_535, 65_536, 65_537]);
    let i = ch.choose(5);
    let b = &corpus()[i];
    let f = ch.choose(b.blks.len() + 1);
    let how = ch.choose(3);
    let again = E::Io(ErrorKind::WouldBlock);
    let m = b.frame_offs[0];
    if how < 2 {
        // Before frame f, none of whose bytes has been consumed.
        let r = nopanic(&b.bytes, || -> Result<(), String> {
            let src = Flaky { d: &b.bytes[m..], pos: 0, at: b.frame_offs[f] - m, left: k, piece: if how == 0 { usize::MAX } else { 1 } };
            let mut fr = FrameReader::new(BufferedReader::new(src));
            for j in 0..f { if next(&mut fr, vec![]) != Ob::Blk(b.blks[j].clone()) { return Err(format!("block {} before the failures", j)); } }
            for j in 0..k { if j & 4095 == 0 { heartbeat(); } let o = next(&mut fr, vec![]); if o != Ob::Err(again) { return Err(format!("failure {}: {}", j, o.short())); } }
            for j in f..=b.blks.len() { let o = next(&mut fr, vec![]); let w = b.blks.get(j).map_or(Ob::End, |x| Ob::Blk(x.clone())); if o != w { return Err(format!("after the failures: {}, expected {}", o.short(), w.short())); } }
            Ok(())
        })?;
        if let Err(e) = r { return violb(format!("{}: {} failures before frame {}: {}", b.name, k, f, e), &b.bytes); }
    } else {
        let d: Vec<u8> = (0..3 * cap() + 9).map(|i| (i * 7 + 0x81 + (i >> 8) * 3) as u8).collect();
        for at in [0usize, 1, 2, 3, cap() - 1, cap(), cap() + 1, 2 * cap(), d.len() - 1] { if k > 300 && at > 3 && at != cap() { continue; }
            let r = nopanic(&[], || -> Result<(), String> {
                let mut rd = BufferedReader::new(Flaky { d: &d, pos: 0, at, left: k, piece: usize::MAX });
                let mut p = 0;
                let mut seen = 0;
                while p < d.len() {
                    match if p % 3 == 0 { rd.read_u8() } else { rd.read_u8_or_eof().map(|x| x.unwrap_or(!d[p])) } {
                        Ok(x) if x == d[p] => p += 1,
                        Err(e) if e.kind() == ErrorKind::WouldBlock => { seen += 1; if seen > k { return Err("more failures than there were".into()); } }
                        x => return Err(format!("byte {} is {:?} instead of {}", p, x, d[p])),
                    }
                }
                if seen != k { return Err(format!("{} of {} failures reported", seen, k)); }
                match rd.read_u8_or_eof() { Ok(None) => Ok(()), x => Err(format!("at the end: {:?}", x)) }
            })?;
            ch.exec(true);
            if let Err(e) = r { return viol(format!("{} failures after {} bytes: {}", k, at, e)); }
        }
    }
    ch.exec(true);
    ch.state(mix(k as u64, (i * 100 + f * 3 + how) as u64));
    heartbeat();
    ch.sample(|| format!("{}: {} failures in a row before frame {}, way {}", b.name, k, f, how));
    Ok(())
}
