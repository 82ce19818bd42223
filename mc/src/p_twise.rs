//! Combinations: frames described by twenty features, and all frames that differ from a base frame in
//! every two or three (thorough: four) of them at once, put through the checkers of the properties.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::p_client::*;
use crate::p_fault::*;
use crate::p_frame::*;
use crate::refdec;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::FlacReader;
use std::io::Cursor;

pub const STRAT: usize = 0;
pub const NUMBER: usize = 1;
pub const SIZE: usize = 2;
pub const BSCODE: usize = 3;
pub const RATE: usize = 4;
pub const CHAN: usize = 5;
pub const BPS: usize = 6;
pub const KA: usize = 7;
pub const KB: usize = 8;
pub const WA: usize = 9;
pub const WB: usize = 10;
pub const WAVE: usize = 11;
pub const PREC: usize = 12;
pub const SHIFT: usize = 13;
pub const COEF: usize = 14;
pub const METHOD: usize = 15;
pub const PARAM: usize = 16;
pub const PORDER: usize = 17;
pub const BUF: usize = 18;
pub const INPUT: usize = 19;
pub const NF: usize = 20;
const NUMBERS: [u64; 15] = [0, 1, 127, 128, 0x7ff, 0x800, 0xffff, 0x10000, 0x1f_ffff, 0x20_0000, 0x3ff_ffff, 0x400_0000, 0x7fff_ffff, 0x8000_0000, 0xf_ffff_ffff];
/// The first 26 belong to the walks in general, the others to `walk_big`.
const SIZES: [usize; 54] = [1, 2, 3, 4, 5, 8, 13, 16, 17, 24, 31, 32, 33, 48, 64, 65, 96, 128, 192, 255, 256, 257, 512, 576, 1024, 1152,
    1153, 2047, 2048, 2049, 2304, 4095, 4096, 4097, 4608, 4609, 5000, 8191, 8192, 8193, 9216, 12288, 16383, 16384, 16385, 18432, 32767, 32768, 32769, 36864, 40000, 49152, 65534, 65535];
const BIG: usize = 26;
const WASTED: [u32; 14] = [0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 15, 16, 20, 23];
const BPSS: [u32; 5] = [8, 12, 16, 20, 24];
const PARAMS: [u32; 14] = [99, 0, 1, 2, 5, 8, 13, 14, 15, 16, 20, 25, 30, 98]; // 99: fitting, 98: changing
const ORDERS: [usize; 14] = [1, 2, 3, 4, 5, 8, 9, 11, 12, 13, 16, 17, 31, 32];
const COUNT: [usize; NF] = [2, 15, 26, 2, 15, 11, 5, 21, 21, 14, 14, 10, 15, 16, 6, 2, 14, 9, 4, 6];
pub type Spec = [u8; NF];
#[rustfmt::skip]
pub const BASES: [Spec; 5] = [
    // st nu si bc ra ch bp ka kb wa wb wv pr sh co me pa po bu in
    [1, 2, 9, 0, 9, 1, 2, 3, 1, 0, 0, 0, 5, 4, 0, 0, 0, 0, 0, 0], // stereo, fixed order 1 and verbatim
    [0, 1, 9, 0, 9, 10, 2, 10, 4, 0, 0, 0, 5, 4, 0, 0, 0, 1, 2, 1], // mid/side, linear order 4 and fixed order 2
    [0, 0, 11, 1, 0, 8, 4, 4, 15, 0, 0, 0, 9, 6, 1, 1, 0, 0, 0, 0], // left/side 24 bit, fixed order 2 and linear order 12
    [1, 7, 11, 0, 12, 7, 0, 2, 0, 0, 0, 0, 3, 2, 2, 1, 0, 2, 3, 2], // eight channels of 8 bit, fixed order 0 and constant
    [1, 3, 13, 0, 4, 9, 1, 16, 5, 1, 0, 0, 7, 3, 0, 0, 0, 0, 1, 4], // side/right 12 bit, linear order 13 and fixed order 3, wasted bits
];
fn chan_of(c: u8) -> Chan { match c { 8 => Chan::LS, 9 => Chan::RS, 10 => Chan::MS, n => Chan::Ind(n + 1) } }
pub fn describe(s: &Spec) -> String {
    format!("{} number {} size {} ({}) rate code {} {:?} {} bit, kinds {} {} wasted {} {} signal {} precision {} shift {} coefficients {} method {} parameter {} partitions 2^{} buffer {} input {}",
        if s[STRAT] == 1 { "variable" } else { "fixed" }, NUMBERS[s[NUMBER] as usize], SIZES[s[SIZE] as usize], s[BSCODE], s[RATE], chan_of(s[CHAN]), BPSS[s[BPS] as usize], s[KA], s[KB],
        WASTED[s[WA] as usize], WASTED[s[WB] as usize], s[WAVE], s[PREC] + 1, s[SHIFT], s[COEF], s[METHOD], PARAMS[s[PARAM] as usize], s[PORDER], s[BUF], s[INPUT])
}
fn has_res(k: u8) -> bool { k >= 2 }
fn has_lpc(k: u8) -> bool { k >= 7 }
fn signal(wave_no: u8, n: usize, bits: u32, c: usize) -> Vec<i64> {
    let (hi, lo) = ((1i64 << (bits - 1)) - 1, -(1i64 << (bits - 1)));
    (0..n).map(|i| match wave_no {
        0 => lo + ((i * 5 + c) % 2) as i64,
        1 | 8 => hi, 2 => lo, 3 | 9 => if (i + c) % 2 == 0 { hi } else { lo },
        4 => if i == n / 2 { lo } else { 0 }, 5 => (lo + (i as i64 * (hi / 16 + 1))).min(hi), 6 => 0, _ => -(((i * i + i / 3 + c) % 2) as i64),
    }).collect()
}
fn sig(wave_no: u8, n: usize, bits: u32, c: usize) -> Vec<i64> { if wave_no == 0 && bits >= 3 { wave(n, bits, c, 5) } else { signal(wave_no, n, bits, c) } }
/// The frame with these features, and what it decodes to. The signal is made quieter until it fits the coding.
pub fn make(s: &Spec) -> Option<Pf> {
    let variable = s[STRAT] == 1;
    let number = NUMBERS[s[NUMBER] as usize];
    if !variable && number > 0x7fff_ffff { return None; }
    let n = SIZES[s[SIZE] as usize];
    let chan = chan_of(s[CHAN]);
    let bps = BPSS[s[BPS] as usize];
    let codes = bs_codes(n);
    if s[BSCODE] == 1 && codes.len() < 2 { return None; }
    let kn = s[PARAM] as usize;
    let k = match PARAMS[kn] { 99 => K::Auto, 98 => K::Cycle(vec![9, 12, 10]), k => K::Fixed(k) };
    let kfix = match &k { K::Auto => 14, K::Cycle(_) => 9, K::Fixed(k) => *k };
    if kfix > 14 && s[METHOD] == 0 { return None; }
    let r = res(s[METHOD] == 1, s[PORDER] as u32, k);
    let prec = s[PREC] as u32 + 1;
    let shift = s[SHIFT] as u32;
    let kind = |k: u8| -> Kind { match k { 0 => Kind::Constant, 1 => Kind::Verbatim, 2..=6 => Kind::Fixed(k as usize - 2, r.clone()), k => {
        let o = ORDERS[k as usize - 7];
        let (hi, lo) = ((1i32 << (prec - 1)) - 1, -(1i32 << (prec - 1)));
        let c: Vec<i32> = (0..o).map(|i| match s[COEF] { 0 => if i == 0 { (1i32 << shift.min(prec)).min(hi) } else { [0, -1, 1][i % 3].min(hi) }, 1 => if i % 2 == 0 { hi / 2 } else { lo / 2 }, 2 => hi, 3 => lo, 4 => 0, _ => [hi, lo, 0, -1, hi / 3][i % 5] }).collect();
        Kind::Lpc { coefs: c, prec, shift, res: r.clone() }
    } } };
    let (ka, kb) = (s[KA], s[KB]);
    let subs = vec![Sub { kind: kind(ka), wasted: WASTED[s[WA] as usize] }, Sub { kind: kind(kb), wasted: WASTED[s[WB] as usize] }];
    let nc = chan.n();
    for c in 0..nc.min(2) {
        let sb = &subs[c % 2];
        if sb.wasted >= bps + chan.extra(c) { return None; }
        let o = match &sb.kind { Kind::Fixed(o, _) => *o, Kind::Lpc { coefs, .. } => coefs.len(), _ => continue };
        if n % (1 << s[PORDER]) != 0 || n >> s[PORDER] < o { return None; }
    }
    let mut h = Hdr::new(n, chan, bps, variable, number);
    if s[BSCODE] == 1 { h.bs_code = *codes.last().unwrap(); }
    h.sr_code = s[RATE];
    h.sr_ext = 17;
    // Fixed small parameters only suit quiet signals.
    let res_used = has_res(ka) || nc > 1 && has_res(kb);
    let mut q = if res_used && kfix < 14 { bps.saturating_sub(kfix + 6) } else { 0 };
    QLIM.with(|x| x.set(3000));
    let mut out = None;
    while q < bps {
        let part = |c: usize| -> Vec<i64> {
            let sb = &subs[c % 2];
            let b = (bps + chan.extra(c) - sb.wasted).saturating_sub(q).max(1);
            let mut v = sig(s[WAVE], n, b, c);
            if sb.kind == Kind::Constant { let x = v[n / 2]; v.iter_mut().for_each(|y| *y = x); }
            v.iter().map(|x| x << sb.wasted).collect()
        };
        let coded: Vec<Vec<i64>> = (0..nc).map(part).collect();
        let pcm: Vec<Vec<i64>> = match chan {
            Chan::Ind(_) => coded,
            _ => {
                let (a, b) = (&coded[0], &coded[1]);
                let l: Vec<i64> = (0..n).map(|i| match chan { Chan::LS => a[i], Chan::RS => a[i] + b[i], _ => (2 * a[i] + (b[i] & 1) + b[i]) >> 1 }).collect();
                let rr: Vec<i64> = (0..n).map(|i| match chan { Chan::LS => a[i] - b[i], Chan::RS => b[i], _ => l[i] - b[i] }).collect();
                vec![l, rr]
            }
        };
        let (hi, lo) = ((1i64 << (bps - 1)) - 1, -(1i64 << (bps - 1)));
        if pcm.iter().flatten().all(|&x| x >= lo && x <= hi) {
            if let Some(bytes) = frame(&h, chan, bps, &pcm, &subs) {
                let time = if variable { number } else { number * n as u64 };
                out = Some(Pf { bytes, blk: Blk { time, dur: n as u32, ch: nc as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() }, bps, variable, what: String::new() });
                break;
            }
        }
        q += if q < 3 { 1 } else { 2 };
    }
    QLIM.with(|x| x.set(QMAX));
    out
}
/// Features that make no difference given the others.
fn idle(s: &Spec, f: usize) -> bool {
    let mono = s[CHAN] == 0;
    let (r, l) = (has_res(s[KA]) || !mono && has_res(s[KB]), has_lpc(s[KA]) || !mono && has_lpc(s[KB]));
    match f { KB | WB => mono, PREC | SHIFT | COEF => !l, METHOD | PARAM | PORDER => !r, _ => false }
}
type Dev = (usize, u8);
fn devs(b: &Spec, skip: &[usize]) -> Vec<Dev> { (0..NF).filter(|f| !skip.contains(f)).flat_map(|f| (0..COUNT[f] as u8).filter(move |&v| v != b[f]).map(move |v| (f, v))).collect() }
/// Calls `g` with every frame that differs from a base frame in up to `t` features (1 to 4).
pub fn walk(ch: &mut Ch, t: usize, bases: usize, skip: &[usize], g: &mut dyn FnMut(&mut Ch, &Pf, &Spec) -> R) -> R {
    let base = BASES[ch.choose(bases)];
    let d = devs(&base, skip);
    // Outer choices: all but the last deviation. Choosing none stands for fewer deviations.
    let mut s = base;
    let mut from = 0;
    for _ in 0..t.saturating_sub(1) {
        let i = from + ch.choose(d.len() - from + 1);
        if i == d.len() { from = i; break; }
        s[d[i].0] = d[i].1;
        from = d.iter().position(|x| x.0 > d[i].0).unwrap_or(d.len());
        if from == d.len() { break; }
    }
    let mut one = |ch: &mut Ch, s: &Spec| -> R {
        if (0..NF).any(|f| s[f] != base[f] && idle(s, f)) { return Ok(()); }
        if let Some(f) = make(s) { g(ch, &f, s)?; }
        Ok(())
    };
    one(ch, &s)?;
    for i in from..d.len() {
        let mut x = s;
        x[d[i].0] = d[i].1;
        one(ch, &x)?;
    }
    heartbeat();
    if from < d.len() { let s = s; ch.sample(|| format!("{} and one more change", describe(&s))); }
    Ok(())
}
/// Calls `g` with every frame of one of 28 sizes beyond 1152 that otherwise differs from a base frame in one feature
/// (including all partition orders), or, with sizes a power of two or nearby only, in `t` ones.
pub fn walk_big(ch: &mut Ch, sizes: &[u8], t: usize, skip: &[usize], g: &mut dyn FnMut(&mut Ch, &Pf, &Spec) -> R) -> R {
    let mut base = BASES[ch.choose(5)];
    base[SIZE] = BIG as u8 + sizes[ch.choose(sizes.len())];
    let tz = SIZES[base[SIZE] as usize].trailing_zeros() as u8;
    base[PORDER] = base[PORDER].min(tz);
    base[BSCODE] = 0;
    let mut sk = skip.to_vec();
    sk.extend([SIZE, PORDER]);
    let mut d = devs(&base, &sk);
    if !skip.contains(&PORDER) { d.extend((0..=tz.min(15)).filter(|&v| v != base[PORDER]).map(|v| (PORDER, v))); }
    let mut one = |ch: &mut Ch, s: &Spec| -> R {
        if (0..NF).any(|f| s[f] != base[f] && idle(s, f)) { return Ok(()); }
        if let Some(f) = make(s) { g(ch, &f, s)?; }
        heartbeat();
        Ok(())
    };
    let mut s = base;
    if t == 2 {
        let i = ch.choose(d.len());
        s[d[i].0] = d[i].1;
        for x in d.iter().filter(|x| x.0 > d[i].0) { let mut y = s; y[x.0] = x.1; one(ch, &y)?; }
    } else {
        // A fifth of the features' values in each shard.
        let part = ch.choose(5);
        if part == 0 { one(ch, &s)?; }
        for (_, x) in d.iter().enumerate().filter(|x| x.0 % 5 == part) { let mut y = s; y[x.0] = x.1; one(ch, &y)?; }
    }
    ch.sample(|| format!("{} and one more change", describe(&s)));
    Ok(())
}
const ALL_BIG: [u8; 28] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27];
fn some_big(ch: &Ch) -> &'static [u8] { if ch.quick() { &[0, 3, 7, 9, 12, 18, 21, 23, 27] } else { &ALL_BIG } }
fn few_big(ch: &Ch) -> &'static [u8] { if ch.quick() { &[3, 9, 21, 27] } else { &ALL_BIG } }
pub fn big_decode(ch: &mut Ch) -> R { walk_big(ch, &ALL_BIG, 1, &[], &mut |ch, f, s| { seen(ch, f); deliver(ch, f, s) }) }
pub fn big_decode2(ch: &mut Ch) -> R { walk_big(ch, &[8, 12, 22, 23, 27], 2, &[RATE, BUF, INPUT, NUMBER], &mut |ch, f, s| { seen(ch, f); deliver(ch, f, s) }) }
/// Damage to the checksums of long frames, and some of their bits.
pub fn big_damage(ch: &mut Ch) -> R {
    walk_big(ch, few_big(ch), 1, &[BUF, INPUT, WAVE, COEF, SHIFT, PREC], &mut |ch, f, s| {
        let mut d = f.bytes.clone();
        let n = d.len() * 8;
        let mut bits: Vec<usize> = (n - 16..n).collect();
        bits.extend([0, 13, 17, 30, 37, 40, n / 3, n / 2, n - 17, n - 30]);
        for i in bits {
            d[i / 8] ^= 0x80 >> (i % 8);
            if let Err(v) = must_reject(ch, &d, &|| format!("{} with bit {} inverted", describe(s), i)) { if refdec::frame(&d).is_err() { return Err(v); } }
            d[i / 8] ^= 0x80 >> (i % 8);
        }
        seen(ch, f);
        Ok(())
    })
}
/// Every block size: each single bit of the frame checksum inverted, and the header's.
pub fn size_damage(ch: &mut Ch) -> R {
    let per = 32;
    let first = 1 + ch.choose(65536 / per) * per;
    let step = ch.t(1, 1);
    for n in (first..(first + per).min(65536)).step_by(step) {
        let v = [(n * 37) as i64 % 30000 - 15000];
        let mut h = Hdr::new(n, Chan::Ind(1), 16, n % 2 == 0, (n * 5) as u64);
        if n % 3 == 0 { let c = bs_codes(n); h.bs_code = c[c.len() - 1]; }
        let f = frame(&h, Chan::Ind(1), 16, &[vec![v[0]; n]], &[sub(Kind::Constant)]).unwrap();
        let len = f.len();
        let mut d = f.clone();
        for i in 0..len * 8 {
            if i < len * 8 - 40 && i % 11 != n % 11 { continue; }
            d[i / 8] ^= 0x80 >> (i % 8);
            if let Err(v) = must_reject(ch, &d, &|| format!("constant frame of {} samples with bit {} inverted", n, i)) { if refdec::frame(&d).is_err() { return Err(v); } }
            d[i / 8] ^= 0x80 >> (i % 8);
        }
        ch.state(hash_bytes(n as u64, &f));
    }
    heartbeat();
    ch.sample(|| format!("constant frames of {} to {} samples with inverted bits", first, first + per - 1));
    Ok(())
}
pub fn big_views(ch: &mut Ch) -> R {
    walk_big(ch, some_big(ch), 1, &[BUF, INPUT, WAVE, COEF, SHIFT, PREC, RATE, PARAM], &mut |ch, f, s| {
        let r = nopanic(&f.bytes, || FrameReader::new(SliceRb::new(&f.bytes)).read_next_or_eof(vec![]))?;
        match r {
            Ok(Some(g)) => consistent(&g, &f.blk, &f.bytes)?,
            r => return violb(format!("{}: {:?}", describe(s), r.map(|x| x.is_some())), &f.bytes),
        }
        ch.exec(true);
        seen(ch, f);
        Ok(())
    })
}
pub fn big_memory(ch: &mut Ch) -> R {
    walk_big(ch, some_big(ch), 1, &[BUF, INPUT, COEF, SHIFT, PREC, RATE], &mut |ch, f, s| memory_one(ch, f, s))
}
pub fn big_deliveries(ch: &mut Ch) -> R {
    walk_big(ch, some_big(ch), 1, &[BUF, INPUT, COEF, SHIFT, PREC, RATE, WAVE], &mut |ch, f, s| {
        let d = &f.bytes;
        let rc: std::rc::Rc<[u8]> = d[..].into();
        for k in 0..5usize {
            if k == 0 && d.len() > 9000 { continue; }
            let c = match k { 0 => Chunk::Uniform(1), 1 => Chunk::Uniform(509), 2 => Chunk::Uniform(2047), 3 => Chunk::Full, _ => Chunk::Cuts((0..d.len()).filter(|i| i % 1999 < 3).collect()) };
            let r = nopanic(d, || FrameReader::new(BufferedReader::new(Src::rc(rc.clone()).chunk(c.clone()).scribble(if k % 2 == 0 { 0xff } else { 0 }))).read_next_or_eof(vec![]))?;
            ch.exec(true);
            match r {
                Ok(Some(g)) => if let Err(m) = same(&g, &f.blk) { return violb(format!("{} delivered in {:.60}: {}", describe(s), format!("{:?}", c), m), d) },
                r => return violb(format!("{} delivered in {:.60}: {:?}", describe(s), format!("{:?}", c), r.map(|x| x.is_some())), d),
            }
        }
        seen(ch, f);
        Ok(())
    })
}
pub fn big_cuts(ch: &mut Ch) -> R {
    walk_big(ch, some_big(ch), 1, &[BUF, INPUT, COEF, SHIFT, PREC, RATE, WAVE], &mut |ch, f, s| cuts_one(ch, f, s, 8))
}
pub fn big_memory_use(ch: &mut Ch) -> R {
    walk_big(ch, some_big(ch), 1, &[BUF, INPUT, COEF, SHIFT, PREC, RATE, WAVE], &mut |ch, f, s| memory_use_one(ch, f, s))
}
pub fn big_changed(ch: &mut Ch) -> R {
    walk_big(ch, few_big(ch), 1, &[BUF, INPUT, RATE, NUMBER, WAVE], &mut |ch, f, _| changed_one(ch, f, 1))
}
fn buffer(kind: u8, need: usize) -> Vec<i32> { match kind { 0 => vec![], 1 => vec![0x5aa5_a55a; need], 2 => vec![-1; need * 2 + 5], _ => vec![i32::MIN; need / 2] } }
/// Reads the frame as the specification's delivery and buffer say.
fn deliver(ch: &mut Ch, f: &Pf, s: &Spec) -> R {
    let d = &f.bytes;
    let buf = buffer(s[BUF], f.blk.data.len());
    let show = || describe(s);
    let check = |r: claxon::Result<Option<claxon::Block>>| -> R { match r {
        Ok(Some(g)) => match same(&g, &f.blk) { Ok(()) => Ok(()), Err(m) => violb(format!("{}: {}", show(), m), d) },
        r => violb(format!("{}: {:?}", show(), r.map(|x| x.is_some())), d),
    } };
    ch.exec(true);
    match s[INPUT] {
        0 => check(nopanic(d, || FrameReader::new(SliceRb::new(d)).read_next_or_eof(buf))?),
        1 => check(nopanic(d, || FrameReader::new(Cursor::new(d)).read_next_or_eof(buf))?),
        2 => check(nopanic(d, || FrameReader::new(BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(1)).scribble(0xff))).read_next_or_eof(buf))?),
        3 => check(nopanic(d, || FrameReader::new(BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(29)).scribble(0))).read_next_or_eof(buf))?),
        _ => {
            let info = Info { minb: 16, maxb: 65535, ..Info::new(16, f.blk.ch, f.bps, f.blk.dur as u64) };
            let mut b = head(&info, &[]);
            b.extend(d);
            if s[INPUT] == 4 {
                check(nopanic(&b, || FlacReader::new(&b[..]).unwrap().blocks().read_next_or_eof(buf))?)
            } else {
                let g = nopanic(&b, || samples(&mut FlacReader::new(&b[..]).unwrap().samples(), f.blk.data.len() + 1))?;
                if g != (Smp { v: inter(&f.blk), end: Ok(()) }) { return violb(format!("{}: samples {:?}.. {:?}, expected {:?}..", show(), &g.v[..g.v.len().min(8)], g.end, &inter(&f.blk)[..f.blk.data.len().min(8)]), &b); }
                Ok(())
            }
        }
    }
}
fn seen(ch: &mut Ch, f: &Pf) { ch.state(hash_bytes(f.bytes.len() as u64, &f.bytes[..f.bytes.len().min(400)])); }

// ------------------------------------------------------------------ C01, C09, C21
pub fn decode(ch: &mut Ch) -> R {
    let b = ch.t(3, 5);
    walk(ch, 3, b, &[], &mut |ch, f, s| { seen(ch, f); deliver(ch, f, s) })
}
pub fn decode4(ch: &mut Ch) -> R { walk(ch, 4, 2, &[RATE, BUF, INPUT, BSCODE], &mut |ch, f, s| deliver(ch, f, s)) }
/// The reference decoder agrees with the encoder on them.
pub fn reference(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT], &mut |ch, f, s| {
        match refdec::frame(&f.bytes) {
            Ok(w) if w.strict && w.data.iter().map(|&x| x as i32).eq(f.blk.data.iter().cloned()) && (if w.variable { w.number } else { w.number * w.bs as u64 }) == f.blk.time => {}
            r => panic!("the reference decoder disagrees with the encoder on {}: {:?}", describe(s), r.map(|w| w.strict)),
        }
        judge(ch, &f.bytes, Exact::Yes).map(|_| ())
    })
}
pub fn decode_pairs(ch: &mut Ch) -> R { walk(ch, 2, 5, &[], &mut |ch, f, s| { seen(ch, f); deliver(ch, f, s) }) }

// ------------------------------------------------------------------ C03
/// No single damaged bit goes unnoticed.
pub fn flips(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT], &mut |ch, f, s| {
        let mut d = f.bytes.clone();
        let n = d.len() * 8;
        let step = if d.len() <= 60 { 1 } else { (1 + d.len() / ch.t(10, 40)) | 1 };
        let mut i = 0;
        while i < n {
            d[i / 8] ^= 0x80 >> (i % 8);
            // A change that moves the end of the frame may meet a matching checksum by chance; the reference tells.
            if let Err(v) = must_reject(ch, &d, &|| format!("{} with bit {} inverted", describe(s), i)) { if refdec::frame(&d).is_err() { return Err(v); } }
            d[i / 8] ^= 0x80 >> (i % 8);
            i += if i < 120 || i + 24 >= n { 1 } else { step };
        }
        seen(ch, f);
        Ok(())
    })
}

// ------------------------------------------------------------------ C04
/// Every frame of fewer bytes is an error, never a block.
pub fn cuts(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT], &mut |ch, f, s| cuts_one(ch, f, s, 60))
}
fn cuts_one(ch: &mut Ch, f: &Pf, s: &Spec, most: usize) -> R {
    let n = f.bytes.len();
    let step = 1 + n / most;
    let mut i = 0;
    while i < n {
        let d = &f.bytes[..i];
        let r = match i % 3 {
            0 => nopanic(d, || next(&mut FrameReader::new(SliceRb::new(d)), vec![]))?,
            1 => nopanic(d, || next(&mut FrameReader::new(Cursor::new(d)), vec![]))?,
            _ => nopanic(d, || next(&mut FrameReader::new(BufferedReader::new(Src::new(d).chunk(Chunk::Uniform(1 + i % 13)).scribble(0xff))), vec![]))?,
        };
        ch.exec(true);
        let want = if i == 0 { Ob::End } else { Ob::Err(EOFE) };
        if r != want { return violb(format!("{} cut after {} of {} bytes: {}", describe(s), i, n, r.short()), d); }
        i += if i < 24 || i + 6 >= n { 1 } else { step };
    }
    seen(ch, f);
    Ok(())
}

// ------------------------------------------------------------------ C05
/// However the bytes arrive, the same block.
pub fn deliveries(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT], &mut |ch, f, s| deliveries_one(ch, f, s))
}
fn deliveries_one(ch: &mut Ch, f: &Pf, s: &Spec) -> R {
    let d = &f.bytes;
    let rc: std::rc::Rc<[u8]> = d[..].into();
    for k in 0..8usize {
        let c = match k { 0 => Chunk::Uniform(1), 1 => Chunk::Uniform(2), 2 => Chunk::Uniform(3), 3 => Chunk::Uniform(7), 4 => Chunk::Uniform(64), 5 => Chunk::Full, 6 => Chunk::Cuts(vec![d.len() / 2, d.len() - 2, d.len() - 1]), _ => Chunk::Cuts((0..d.len()).filter(|i| i % 5 == 3).collect()) };
        let r = nopanic(d, || FrameReader::new(BufferedReader::new(Src::rc(rc.clone()).chunk(c.clone()).scribble(if k % 2 == 0 { 0xff } else { 0 }))).read_next_or_eof(vec![]))?;
        ch.exec(true);
        match r {
            Ok(Some(g)) => if let Err(m) = same(&g, &f.blk) { return violb(format!("{} delivered in {:?}: {}", describe(s), c, m), d) },
            r => return violb(format!("{} delivered in {:?}: {:?}", describe(s), c, r.map(|x| x.is_some())), d),
        }
    }
    seen(ch, f);
    Ok(())
}

// ------------------------------------------------------------------ C07
/// Whatever fresh memory or the passed buffer holds, the same block.
pub fn memory(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT], &mut |ch, f, s| memory_one(ch, f, s))
}
fn memory_one(ch: &mut Ch, f: &Pf, s: &Spec) -> R {
    let d = &f.bytes;
    let n = f.blk.data.len();
    for k in 0..6usize {
        let p = [0xaau8, 0x55, 0, 0xff, 0x80, 0x7f][k];
        let r = nopanic(d, || poison(p, || {
            let buf = match k { 0 | 1 => vec![], 2 => vec![i32::MAX; n + 3], 3 => vec![i32::MIN; n], 4 => vec_of(n / 3, 2 * n, -5), _ => vec_of(0, n, 1) };
            if k % 2 == 0 { FrameReader::new(SliceRb::new(d)).read_next_or_eof(buf) } else { FrameReader::new(BufferedReader::new(&d[..])).read_next_or_eof(buf) }
        }))?;
        ch.exec(true);
        match r {
            Ok(Some(g)) => if let Err(m) = same(&g, &f.blk) { return violb(format!("{} with memory holding {:#x}: {}", describe(s), p, m), d) },
            r => return violb(format!("{} with memory holding {:#x}: {:?}", describe(s), p, r.map(|x| x.is_some())), d),
        }
    }
    seen(ch, f);
    Ok(())
}

// ------------------------------------------------------------------ C08, C17
pub fn views(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT], &mut |ch, f, s| {
        let r = nopanic(&f.bytes, || FrameReader::new(SliceRb::new(&f.bytes)).read_next_or_eof(vec![]))?;
        match r {
            Ok(Some(g)) => consistent(&g, &f.blk, &f.bytes)?,
            r => return violb(format!("{}: {:?}", describe(s), r.map(|x| x.is_some())), &f.bytes),
        }
        ch.exec(true);
        seen(ch, f);
        Ok(())
    })
}
pub fn memory_use(ch: &mut Ch) -> R {
    walk(ch, 2, 5, &[BUF, INPUT, RATE], &mut |ch, f, s| memory_use_one(ch, f, s))
}
fn memory_use_one(ch: &mut Ch, f: &Pf, s: &Spec) -> R {
    frame_mem(&f.bytes, f.blk.data.len() as u64, ch, &|| describe(s))?;
    let cut = &f.bytes[..f.bytes.len() * 2 / 3];
    frame_mem(cut, f.blk.data.len() as u64, ch, &|| format!("{} cut short", describe(s)))?;
    seen(ch, f);
    Ok(())
}

// ------------------------------------------------------------------ C02, C06, C11, C20, C21, C22
/// Every change of a bit with the checksums put right: the reference decoder's verdict.
pub fn changed(ch: &mut Ch) -> R {
    let b = ch.t(3, 5);
    walk(ch, 2, b, &[BUF, INPUT, RATE, NUMBER], &mut |ch, f, _| changed_one(ch, f, 6))
}
fn changed_one(ch: &mut Ch, f: &Pf, every: usize) -> R {
    let hl = refdec::header(&f.bytes).map(|h| h.len).unwrap_or(6);
    let n = f.bytes.len() - 2;
    let mut d = f.bytes.clone();
    let lead = if every > 1 { [(hl * 8, 24), (n * 8 - 8, 8)] } else { [(hl * 8, 8), (n * 8 - 4, 4)] };
    for (a, l) in lead { for i in a..(a + l).min(n * 8) {
        d[i / 8] ^= 0x80 >> (i % 8);
        fix_crc16(&mut d);
        judge(ch, &d, Exact::No)?;
        d[i / 8] ^= 0x80 >> (i % 8);
    } }
    let mut i = hl * 8 + 24;
    while i + 8 < n * 8 {
        d[i / 8] ^= 0x80 >> (i % 8);
        fix_crc16(&mut d);
        judge(ch, &d, Exact::No)?;
        d[i / 8] ^= 0x80 >> (i % 8);
        i += 1 + n / every;
    }
    Ok(())
}
/// Two frames one after the other, with the same reader and buffer: as on their own.
pub fn after(ch: &mut Ch) -> R {
    let all = singles();
    let a = &all[ch.choose(all.len())];
    let step = 7;
    let off = ch.choose(step);
    for b in all.iter().skip(off).step_by(step) {
        let mut d = a.bytes.clone();
        d.extend(&b.bytes);
        let (x, y) = nopanic(&d, || {
            let mut fr = FrameReader::new(SliceRb::new(&d));
            let x = fr.read_next_or_eof(vec![7; 40]);
            match x { Ok(Some(x)) => { let sx = same(&x, &a.blk); let y = fr.read_next_or_eof(x.into_buffer()); (sx, match y { Ok(Some(y)) => same(&y, &b.blk), y => Err(format!("{:?}", y.map(|y| y.is_some()))) }) } x => (Err(format!("{:?}", x.map(|x| x.is_some()))), Ok(())) }
        })?;
        ch.execs(2, 2);
        if let Err(m) = x { return violb(format!("{}: {}", a.what, m), &d); }
        if let Err(m) = y { return violb(format!("{} after {}: {}", b.what, a.what, m), &d); }
    }
    heartbeat();
    ch.state(hash_bytes(1, &a.bytes));
    Ok(())
}
/// The base frames with every single change, with numbers that make each stand on its own.
fn singles() -> &'static [Pf] {
    static C: std::sync::OnceLock<Vec<Pf>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for b in BASES { for d in devs(&b, &[BUF, INPUT, NUMBER, STRAT]) {
            let mut s = b;
            s[d.0] = d.1;
            s[STRAT] = 1;
            if idle(&s, d.0) { continue; }
            if let Some(mut f) = make(&s) { f.what = describe(&s); v.push(f); }
        } }
        v
    })
}
/// The three interfaces agree on a stream of the frame and another.
pub fn interfaces(ch: &mut Ch) -> R {
    let all = singles();
    let a = &all[ch.choose(all.len())];
    let step = ch.t(61, 7);
    let off = (ch.parity() as usize) % step;
    for b in all.iter().skip(off).step_by(step) {
        let info = Info { minb: 16, maxb: 65535, ..Info::new(16, a.blk.ch, a.bps, 0) };
        let mut bytes = head(&info, &[]);
        let m = bytes.len();
        let mut offs = vec![m];
        for f in [a, b] { bytes.extend(&f.bytes); offs.push(bytes.len()); }
        let s = Built { name: "pair", bytes, meta_offs: vec![0, 4, m], frame_offs: offs, blks: vec![a.blk.clone(), b.blk.clone()], info, vendor: None, tags: vec![] };
        three_ways(ch, &s)?;
    }
    heartbeat();
    ch.state(hash_bytes(2, &a.bytes));
    Ok(())
}
/// The source fails at every point of the frame.
pub fn faults(ch: &mut Ch) -> R {
    let all = singles();
    let f = &all[ch.choose(all.len())];
    let d = &f.bytes;
    let n = d.len();
    let step = 1 + n / ch.t(60, 400);
    let mut i = 0;
    while i < n {
        for (kind, os) in [(std::io::ErrorKind::Other, false), (std::io::ErrorKind::UnexpectedEof, false), (std::io::ErrorKind::InvalidData, false), (std::io::ErrorKind::Other, true)] {
            if os && i % 4 != 0 { continue; }
            let fault = Fault { at: 1, kind, persistent: i % 2 == 0, os };
            let cuts = if i == 0 { vec![] } else { vec![i] };
            let fault = if i == 0 { Fault { at: 0, ..fault } } else { fault };
            let r = nopanic(d, || FrameReader::new(BufferedReader::new(Src::new(d).chunk(Chunk::Cuts(cuts)).fault(Some(fault)))).read_next_or_eof(vec![]).map(|x| x.is_some()))?;
            ch.exec(true);
            match r {
                Err(ref e @ claxon::Error::IoError(ref io)) if etext(e) == io_text(&fault) && io.kind() == fault_error(&fault).kind() => {}
                r => return violb(format!("{} with a source that fails ({:?}) after {} of {} bytes: {:?}", f.what, fault, i, n, r), d),
            }
        }
        i += if i < 30 || i + 4 > n { 1 } else { step };
    }
    ch.state(hash_bytes(3, d));
    Ok(())
}
fn io_text(f: &Fault) -> String { etext(&claxon::Error::IoError(fault_error(f))) }
