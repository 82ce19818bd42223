//! Every combination of header codes; coefficient sums against the width of the samples; texts that are equal to each other;
//! comments of millions of bytes; files that are not regular; sources that promise more than they give.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_frame::{around, judge, must_reject, Exact};
use crate::refdec;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{self, MetadataBlock};
use claxon::FlacReader;
use std::io::{Cursor, Read};

// ------------------------------------------------------------------ headers: C03, C04, C10

const BS: [(u8, u32); 25] = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (6, 1), (6, 15), (6, 255), (7, 0), (7, 1), (7, 15), (7, 254), (7, 255), (7, 256), (7, 4607), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (13, 0), (14, 0), (15, 0)];
const SR: [(u8, u16); 24] = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (12, 1), (12, 44), (12, 255), (13, 0), (13, 44100), (13, 65535), (14, 0), (14, 1), (14, 4410), (14, 65535), (15, 0)];
/// Calls `f` with every header over a choice of block size, number length, strategy and one of `parts` parts of the rates.
fn each(ch: &mut Ch, thin: bool, f: &mut dyn FnMut(&mut Ch, &[u8]) -> R) -> R {
    let (bs_code, bs_ext) = ch.pick(&BS);
    let len = ch.range(1, 7);
    let variable = ch.flag();
    if len == 7 && !variable { return Ok(()); }
    let large = bs_code >= 10 || bs_code == 5 || (bs_ext > 4000);
    let top = (1u64 << VARCAP[len]) - 1;
    let num = match (bs_ext + bs_code as u32) % 3 { 0 => top, 1 => if len == 1 { 0 } else { 1 << VARCAP[len - 1] }, _ => top & 0x5_5555_5555 | (top + 1) >> 1 };
    let num = if variable { num } else { num.min((1 << 31) - 1) };
    for &(sr_code, sr_ext) in &SR {
        for ch_code in 0..16u8 {
            for bps in 0..8u8 {
                if large && thin && (ch_code as usize * 3 + bps as usize + sr_code as usize + len) % 5 != 0 { continue; }
                let h = Hdr { b0: 0xff, b1: 0xf8 | variable as u8, bs_code, sr_code, ch_code, bps_code: bps, res: 0, num: varint(num, len), bs_ext, sr_ext };
                f(ch, &h.nocrc())?;
            }
        }
    }
    ch.sample(|| format!("block size code {} ({}), number of {} bytes, variable {}", bs_code, bs_ext, len, variable));
    Ok(())
}
pub fn every_code(ch: &mut Ch) -> R {
    each(ch, false, &mut |ch, hd| { judge(ch, &around(hd, None), Exact::Yes)?; Ok(()) })
}
pub fn every_sum(ch: &mut Ch) -> R {
    each(ch, false, &mut |ch, hd| {
        let ok = around(hd, None);
        if refdec::header(&ok).is_err() { return Ok(()); }
        let c = crc8(hd);
        ch.state(hash_bytes(4, hd));
        for x in [1u8, 2, 4, 8, 16, 32, 64, 128, 0xff, c] {
            if x == 0 { continue; }
            let b = around(hd, Some(c ^ x));
            must_reject(ch, &b, &|| format!("header {} with checksum {:#x} instead of {:#x}", hex(hd), c ^ x, c))?;
        }
        Ok(())
    })
}
pub fn every_cut(ch: &mut Ch) -> R {
    each(ch, true, &mut |ch, hd| {
        let ok = around(hd, None);
        if refdec::frame(&ok).is_err() { return Ok(()); }
        for n in 0..=ok.len().min(hd.len() + 3) {
            if n == ok.len() { continue; }
            let b = &ok[..n];
            let e = nopanic(b, || { let mut fr = FrameReader::new(SliceRb::new(b)); match fr.read_next_or_eof(vec![]) { Ok(Some(_)) => Err("a block"), Ok(None) => Ok(None), Err(e) => Ok(Some(ec(&e))) } })?;
            ch.exec(true);
            match (n, e) { (0, Ok(None)) => {} (1.., Ok(Some(E::Io(std::io::ErrorKind::UnexpectedEof)))) => {} (_, e) => return violb(format!("the first {} bytes of a frame of {}: {:?}", n, ok.len(), e), b) }
        }
        ch.state(hash_bytes(5, hd));
        Ok(())
    })
}

// ------------------------------------------------------------------ C01

/// Linear prediction: sums of coefficients about every power of two, on full-scale signals of every width and channel mode.
pub fn coef_range(ch: &mut Ch) -> R {
    let bps = ch.pick(&[8u32, 12, 16, 20, 24]);
    let mode = ch.choose(7);
    let order = ch.pick(&[1usize, 2, 3, 4, 8, 9, 12, 13, 16, 32]);
    let k = ch.range(0, 15) as u32;
    let (chan, which) = match mode { 0 => (Chan::Ind(1), 0), 1 => (Chan::LS, 1), 2 => (Chan::LS, 0), 3 => (Chan::RS, 0), 4 => (Chan::RS, 1), 5 => (Chan::MS, 1), _ => (Chan::MS, 0) };
    let width = bps + chan.extra(which);
    let (hi, lo) = ((1i64 << (bps - 1)) - 1, -(1i64 << (bps - 1)));
    let n = order + 19;
    let mut execs = 0u64;
    for (num, den, add) in [(1i64, 1i64, 0i64), (1, 1, -1), (1, 1, 1), (5, 4, 0), (3, 2, 0), (7, 4, 1)] {
        let total = (num << k) / den + add;
        if total <= 0 { continue; }
        for dist in 0..5 {
            // How the sum of the magnitudes is spread, and with which signs.
            let mut c = vec![0i64; order];
            match dist { 0 => c[0] = total, 1 => c[order - 1] = total, 2 | 3 | 4 => for i in 0..order { c[i] = total / order as i64 + ((i as i64) < total % order as i64) as i64; }, _ => unreachable!() }
            if dist == 3 { for i in (0..order).step_by(2) { c[i] = -c[i]; } }
            if dist == 4 { for x in c.iter_mut() { *x = -*x; } }
            if c.iter().any(|&x| x < -16384 || x > 16383) { continue; }
            let m = c.iter().map(|x| x.abs()).max().unwrap();
            let prec = (65 - (m as u64).leading_zeros()).max(2).min(15);
            let coefs: Vec<i32> = c.iter().map(|&x| x as i32).collect();
            for signal in 0..7 {
                let at = |i: usize, l: bool| -> i64 { match signal { 0 => if l { hi } else { lo }, 1 => if l { lo } else { hi }, 2 => if (i % 2 == 0) == l { hi } else { lo }, 3 => if (i % 3 == 0) == l { lo } else { hi }, 4 => if l { hi - (i as i64 % 5) } else { lo + (i as i64 % 3) }, 5 => if i < order { if l { hi } else { lo } } else { 0 }, _ => hi / 2 + 1 } };
                let pcm: Vec<Vec<i64>> = if chan.n() == 1 { vec![(0..n).map(|i| at(i, true)).collect()] } else { vec![(0..n).map(|i| at(i, true)).collect(), (0..n).map(|i| at(i, false)).collect()] };
                for shift in [k.min(15), k.saturating_sub(1).min(15), 0] {
                    if shift == 0 && k > 3 { continue; }
                    let mut subs = vec![sub(Kind::Verbatim); chan.n()];
                    subs[which] = sub(lpc(&coefs, prec, shift, res(width > 16, 0, K::Auto)));
                    let Some(f) = quick_frame(chan, bps, true, 0, &pcm, &subs) else { continue };
                    let w = Blk { time: 0, dur: n as u32, ch: pcm.len() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() };
                    let o = nopanic(&f, || match FrameReader::new(SliceRb::new(&f)).read_next_or_eof(vec![0x5a5a; 90]) { Ok(Some(b)) => same(&b, &w), Ok(None) => Err("end".into()), Err(e) => Err(format!("{:?}", e)) })?;
                    if let Err(m) = o { return violb(format!("{} bit {:?} channel {}, coefficients {:?}, shift {}, signal {}: {}", bps, chan, which, coefs, shift, signal, m), &f); }
                    execs += 1;
                    ch.state(hash_bytes(2, &f));
                }
            }
        }
    }
    ch.execs(execs, execs);
    ch.steps(execs);
    ch.sample(|| format!("{} bit {:?} channel {}, order {}, sums about 2^{}", bps, chan, which, order, k));
    Ok(())
}

// ------------------------------------------------------------------ C13

pub fn vc_exact(ch: &mut Ch, vendor: &[u8], comments: &[Vec<u8>], what: &dyn Fn() -> String) -> R {
    let body = vorbis(vendor, &comments.iter().map(|c| &c[..]).collect::<Vec<_>>());
    let n = body.len();
    let few = &body[..n.min(3000)];
    let sep = |c: &[u8]| c.iter().position(|&x| x == b'=');
    let v = nopanic(few, || metadata::read_metadata_block(&mut BufferedReader::new(&body[..]), 4, n as u32))?;
    ch.exec(true);
    match v {
        Ok(MetadataBlock::VorbisComment(v)) => {
            if v.vendor.as_bytes() != vendor { return violb(format!("{}: vendor of {} bytes instead of {}", what(), v.vendor.len(), vendor.len()), few); }
            let w: Vec<(&[u8], usize)> = comments.iter().filter(|c| !c.is_empty()).map(|c| (&c[..], sep(c).unwrap())).collect();
            let g: Vec<(&[u8], usize)> = v.comments.iter().map(|c| (c.0.as_bytes(), c.1)).collect();
            if g != w { return violb(format!("{}: {} comments of lengths {:?} instead of {} of lengths {:?}", what(), g.len(), g.iter().map(|c| c.0.len()).take(9).collect::<Vec<_>>(), w.len(), w.iter().map(|c| c.0.len()).take(9).collect::<Vec<_>>()), few); }
        }
        o => return violb(format!("{}: {:?}", what(), o.err()), few),
    }
    let f = head(&Info::new(16, 1, 8, 0), &[(4, body.clone())]);
    let r = nopanic(few, || FlacReader::new(&f[..]).map(|r| (r.vendor().map(|v| v.as_bytes() == vendor), r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>())))?;
    match r {
        Ok((Some(true), t)) => {
            let w: Vec<(&[u8], &[u8])> = comments.iter().filter(|c| !c.is_empty()).map(|c| { let s = sep(c).unwrap(); (&c[..s], &c[s + 1..]) }).collect();
            if t.iter().map(|x| (x.0.as_bytes(), x.1.as_bytes())).collect::<Vec<_>>() != w { return violb(format!("{}: the reader lists {} tags, expected {}", what(), t.len(), w.len()), few); }
        }
        Ok((v, _)) => return violb(format!("{}: vendor right: {:?}", what(), v), few),
        Err(e) => return violb(format!("{}: {:?}", what(), e), few),
    }
    ch.state(hash_bytes(n as u64, &few[..few.len().min(600)]));
    Ok(())
}
/// Vendor string and comments drawn from few texts, so that they are equal to, prefixes of and as long as each other.
pub fn equal_texts(ch: &mut Ch) -> R {
    let size = ch.pick(&[1usize, 2, 8, 15, 16, 17, 32, 40, 100, 255, 256, 300, 2040]);
    let mk = |i: usize| -> Vec<u8> {
        let t = crate::p_more::text(size, 0);
        match i {
            0 => [&t[..], b"=", &t[..]].concat(),
            1 => { let mut v = [&t[..], b"=", &t[..]].concat(); *v.last_mut().unwrap() = b'Z'; v }
            2 => [&t[..], b"="].concat(),
            3 => [b"=", &t[..]].concat(),
            4 => [&t[..], b"=", &t[..], b"=", &t[..]].concat(),
            5 => [&t.to_ascii_uppercase()[..], b"=", &t[..]].concat(),
            _ => vec![],
        }
    };
    let n = ch.range(0, ch.t(3, 4));
    let v = ch.choose(7);
    let c: Vec<usize> = (0..n).map(|_| ch.choose(7)).collect();
    let cs: Vec<Vec<u8>> = c.iter().map(|&i| mk(i)).collect();
    let vendors = [mk(v), { let x = mk(v); x[..x.len() / 2].to_vec() }];
    for ven in &vendors { vc_exact(ch, ven, &cs, &|| format!("vendor as text {} and comments {:?} of size {}", v, c, size))?; }
    ch.sample(|| format!("vendor {} comments {:?} of size {}", v, c, size));
    Ok(())
}
/// Items of up to ten million bytes.
pub fn millions(ch: &mut Ch) -> R {
    let mut l: Vec<usize> = (1..10).map(|m| (m << 20) + 1).collect();
    l.extend((1..10).map(|m| m * 1_000_000 + 7));
    for k in 16..24 { for d in [-1i64, 0, 1] { l.push(((1i64 << k) + d) as usize); } }
    l.extend([(10 << 20) - 100, 3 << 19, 5 << 19, 15 << 19]);
    l.retain(|&x| x + 90 <= 10 << 20);
    l.sort();
    l.dedup();
    let n = ch.pick(&l);
    let shape = ch.choose(7);
    let t = |n: usize, s: usize| crate::p_more::text(n, s);
    let kv = |k: usize, n: usize| -> Vec<u8> { let mut v = t(k, 3); v.push(b'='); let m = n.saturating_sub(k + 1); v.extend(t(m, 5)); v };
    let (vendor, cs): (Vec<u8>, Vec<Vec<u8>>) = match shape {
        0 => (b"v".to_vec(), vec![kv(1, n)]),
        1 => (t(n, 1), vec![kv(1, 9)]),
        2 => (b"v".to_vec(), vec![kv(1, n / 2), kv(2, n / 2)]),
        3 => (t(n / 2, 2), vec![kv(1, n / 2)]),
        4 => (b"v".to_vec(), vec![kv(n - 3, n)]),
        5 => (b"v".to_vec(), vec![kv(3, 9), vec![], kv(n / 2, n), kv(2, 8)]),
        _ => (b"v".to_vec(), vec![kv(1, n / 3), kv(2, 30), kv(1, n / 3), kv(1, n / 4)]),
    };
    heartbeat();
    vc_exact(ch, &vendor, &cs, &|| format!("a comment block of shape {} about an item of {} bytes", shape, n))?;
    heartbeat();
    ch.sample(|| format!("{} bytes, shape {}", n, shape));
    Ok(())
}

// ------------------------------------------------------------------ C05

/// The stream behind a pipe, a link or a plain file, opened by name.
pub fn files(ch: &mut Ch) -> R {
    use std::os::fd::AsRawFd;
    let n = zoo().len();
    let zi = ch.choose(n);
    let b = &zoo()[zi];
    let d = &b.bytes;
    if d.len() > 60_000 { return Ok(()); }
    let want = full(Cursor::new(d.clone()));
    let dir = std::env::temp_dir().join(format!("mc-files-{}-{:x}", std::process::id(), zi));
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir(&dir).is_err() { panic!("scratch directory"); }
    let path = dir.join("a.flac");
    std::fs::write(&path, d).expect("scratch file");
    let link = dir.join("link");
    let _ = std::os::unix::fs::symlink(&path, &link);
    let odd = dir.join("no extension, \u{e9}\u{20ac}");
    let _ = std::fs::hard_link(&path, &odd);
    let bad = |how: &str, ext: usize, got: &Full| -> R { violb(format!("{}: opened as {} ({}): {:?}", b.name, how, ["open", "open_ext"][ext], got), d) };
    let mut r = Ok(());
    let mut execs = 0;
    'all: for ext in 0..2 {
        for how in 0..4 {
            let mut keep = None;
            let p = match how {
                0 => path.clone(),
                1 => link.clone(),
                2 => odd.clone(),
                _ => { let Ok((rd, mut wr)) = std::io::pipe() else { continue }; use std::io::Write; wr.write_all(d).expect("pipe"); let p = std::path::PathBuf::from(format!("/proc/self/fd/{}", rd.as_raw_fd())); keep = Some(rd); p }
            };
            if how > 0 && std::fs::File::open(&p).is_err() { continue; }
            let got = guard(|| if ext == 0 { full_of(FlacReader::open(&p)) } else { full_of(FlacReader::open_ext(&p, opts(false, true))) });
            drop(keep);
            execs += 1;
            match got { Ok(g) => if g != want { r = bad(["a file", "a link", "a file of an odd name", "a pipe"][how], ext, &g); break 'all; }, Err(m) => { r = violb(format!("{}: {:?}", b.name, m), d); break 'all; } }
        }
    }
    for p in [&odd, &link, &path] { let _ = std::fs::remove_file(p); }
    let _ = std::fs::remove_dir(&dir);
    ch.execs(execs, execs);
    ch.state(zi as u64);
    ch.sample(|| format!("{} as a file, a link and a pipe", b.name));
    r
}

// ------------------------------------------------------------------ C20

/// A source that says it has delivered bytes it did not write: whatever is read then must not depend on what was read before, by others.
struct Promise { d: Vec<u8>, pos: usize, from: usize }
impl Read for Promise {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.d.len() { return Ok(0); }
        let n = b.len().min(self.d.len() - self.pos);
        if self.pos < self.from { let n = n.min(self.from - self.pos); b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]); self.pos += n; return Ok(n); }
        self.pos += n;
        Ok(n)
    }
}
pub fn promises(ch: &mut Ch) -> R {
    let bs = corpus();
    let b = &bs[ch.choose(bs.len())];
    let from = ch.pick(&[0usize, 1, 4, 42, 60]);
    let len = ch.pick(&[1usize, 8, 100, 2047, 2048, 2049, 5000]);
    let mut d = vec![0x5a; from + len];
    let m = from.min(b.bytes.len());
    d[..m].copy_from_slice(&b.bytes[..m]);
    let read = |d: &Vec<u8>| -> (Vec<u8>, String, String) {
        let mut v = vec![0u8; d.len()];
        let mut r = BufferedReader::new(Promise { d: d.clone(), pos: 0, from });
        let ok = r.read_into(&mut v).is_ok();
        if !ok { v.clear(); }
        let f = format!("{:?}", full(Promise { d: d.clone(), pos: 0, from }));
        let g = format!("{:?}", drain(&mut FrameReader::new(BufferedReader::new(Promise { d: d.clone(), pos: 0, from })), 3));
        (v, f, g)
    };
    // What a thread that has read nothing else sees.
    let d0 = d.clone();
    let alone = std::thread::scope(|s| s.spawn(|| guard(|| read(&d0))).join());
    let Ok(Ok(alone)) = alone else { return violb("panicked".to_string(), &d) };
    let mut n = 1;
    for how in 0..6 {
        for other in bs {
            nopanic(&d, || match how {
                0 => { let _ = full(Cursor::new(other.bytes.clone())); }
                1 => { let mut r = BufferedReader::new(&other.bytes[..]); let _ = r.skip(9); let _ = r.into_inner(); }
                2 => { if let Ok(mut r) = FlacReader::new(&other.bytes[..]) { let _ = r.blocks().read_next_or_eof(vec![]); let _ = r.into_inner(); } }
                3 => { if let Ok(r) = FlacReader::new(&other.bytes[..]) { let mut s = r.into_samples(); let _ = s.next(); } }
                4 => { let mut fr = FrameReader::new(BufferedReader::new(other.audio())); let _ = fr.read_next_or_eof(vec![]); let _ = fr.into_inner().into_inner(); }
                _ => { let _ = FlacReader::new(&other.bytes[..other.bytes.len().min(30)]); }
            })?;
            let now = nopanic(&d, || read(&d))?;
            n += 1;
            if now != alone { return violb(format!("a source that leaves its bytes from {} on unwritten ({} of them) reads differently after other streams were read (way {}, {}): {} / {}, alone {} / {}", from, len, how, other.name, hex(&now.0[..now.0.len().min(30)]), now.1, hex(&alone.0[..alone.0.len().min(30)]), alone.1), &d); }
        }
    }
    ch.execs(n, n);
    ch.state(mix(h(&b.name), mix(from as u64, len as u64)));
    ch.sample(|| format!("{} up to {}, then {} bytes unwritten", b.name, from, len));
    Ok(())
}
