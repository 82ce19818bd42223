//! C01: every conforming frame decodes to exactly the encoded samples.
use crate::common::*;
use crate::enc::*;
use crate::engine::*;
use crate::fam;
use crate::p_pool;
use crate::p_twise;
use crate::refdec;
use crate::src::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;

pub const BPS: [u32; 5] = [8, 12, 16, 20, 24];

fn dirty(k: u64, n: usize) -> Vec<i32> { match k % 4 { 0 => vec![], 1 => vec![0x5555_5555; n], 2 => vec![-1; n + 9], _ => { let mut v = vec![i32::MIN; n / 2 + 1]; v.reserve(n); v } } }

/// Encodes, cross-checks the encoding with the reference decoder, decodes with the code under test, compares.
fn go(ch: &mut Ch, hd: &Hdr, chan: Chan, bps: u32, pcm: &[Vec<i64>], subs: &[Sub]) -> Result<bool, Viol> {
    let lim = 1i64 << (bps - 1);
    if pcm.iter().flatten().any(|&x| x < -lim || x >= lim) { return Ok(false); }
    let bytes = match frame(hd, chan, bps, pcm, subs) { Some(b) => b, None => return Ok(false) };
    run_bytes(ch, &bytes, pcm)?;
    Ok(true)
}
pub fn run_bytes(ch: &mut Ch, bytes: &[u8], pcm: &[Vec<i64>]) -> R {
    let rf = refdec::frame(bytes).unwrap_or_else(|e| panic!("reference decoder rejects an encoded frame: {:?} {}", e, hex(bytes)));
    assert!(rf.strict && rf.len == bytes.len() && rf.data.iter().eq(pcm.iter().flatten()), "reference decoder and encoder disagree on {}", hex(bytes));
    let time = rf.number * if rf.variable { 1 } else { rf.bs as u64 };
    let want = rf.blk(time);
    let par = ch.parity();
    let buf = dirty(par, want.data.len());
    let r = nopanic(bytes, || {
        if par % 3 == 0 { FrameReader::new(BufferedReader::new(Src::new(bytes).chunk(Chunk::Uniform(if par % 2 == 0 { 2000 } else { 13 })).scribble(0xff))).read_next_or_eof(buf) }
        else { FrameReader::new(SliceRb::new(bytes)).read_next_or_eof(buf) }
    })?;
    ch.exec(true);
    match r {
        Ok(Some(b)) => { if let Err(m) = same(&b, &want) { return violb(m, bytes); } }
        Ok(None) => return violb("a conforming frame was taken for the end of the stream", bytes),
        Err(e) => return violb(format!("a conforming frame was rejected: {:?}", e), bytes),
    }
    ch.steps(want.data.len() as u64);
    ch.state(hash_bytes(bytes.len() as u64, &bytes[..bytes.len().min(4096)]));
    Ok(())
}
fn simple(ch: &mut Ch, chan: Chan, bps: u32, pcm: &[Vec<i64>], subs: &[Sub]) -> Result<bool, Viol> {
    let hd = Hdr::new(pcm[0].len(), chan, bps, false, 0);
    go(ch, &hd, chan, bps, pcm, subs)
}
/// Values around every power of two that fit in `b` bits.
pub fn lattice(b: u32) -> Vec<i64> {
    let (lo, hi) = (-(1i64 << (b - 1)), (1i64 << (b - 1)) - 1);
    let mut v = vec![0, lo, hi, lo + 1, hi - 1];
    for i in 0..b { for d in -1..=1 { for s in [1i64, -1] { v.push(s * (1i64 << i) + d); } } }
    v.retain(|x| (lo..=hi).contains(x));
    v.sort_by_key(|x| (x.abs(), *x));
    v.dedup();
    v
}
fn raw_values(ch: &mut Ch) -> R {
    let bps = ch.pick(&BPS);
    let wasted = ch.choose(bps as usize) as u32;
    let side = ch.choose(4);
    let chan = [Chan::Ind(1), Chan::LS, Chan::RS, Chan::Ind(2)][side];
    let vals: Vec<i64> = if bps - wasted <= 8 { (-(1i64 << (bps - wasted - 1))..1 << (bps - wasted - 1)).collect() } else { lattice(bps - wasted) };
    let vals: Vec<i64> = vals.iter().map(|x| x << wasted).collect();
    let n = vals.len();
    let second: Vec<i64> = vals.iter().rev().cloned().collect();
    let pcm: Vec<Vec<i64>> = if chan.n() == 1 { vec![vals.clone()] } else { vec![vals.clone(), second] };
    if ch.flag() {
        simple(ch, chan, bps, &pcm, &[Sub { kind: Kind::Verbatim, wasted }])?;
        // rotate so that every value meets every neighbour position
        for rot in [1, n / 2] { let p: Vec<Vec<i64>> = pcm.iter().map(|c| { let mut c = c.clone(); c.rotate_left(rot % n); c }).collect(); simple(ch, chan, bps, &p, &[Sub { kind: Kind::Verbatim, wasted }])?; }
    } else {
        for i in 0..n {
            let p: Vec<Vec<i64>> = pcm.iter().map(|c| vec![c[i]; 3]).collect();
            simple(ch, chan, bps, &p, &[Sub { kind: Kind::Constant, wasted }])?;
        }
    }
    ch.sample(|| format!("{} bit, {} wasted, {:?}, {} values", bps, wasted, chan, n));
    Ok(())
}
/// All sequences over a boundary alphabet through every fixed predictor.
fn fixed_seqs(ch: &mut Ch) -> R {
    let bps = ch.pick(&BPS);
    let order = ch.choose(5);
    let lo = -(1i64 << (bps - 1));
    let hi = (1i64 << (bps - 1)) - 1;
    let alpha = [0, 1, -1, lo, hi];
    let n = ch.range(order.max(1), ch.t(5, 7));
    let head: Vec<i64> = (0..n - 1).map(|_| ch.pick(&alpha)).collect();
    for &l in &alpha {
        let mut s = head.clone();
        s.push(l);
        // a tail so that every window gets mixed values too
        simple(ch, Chan::Ind(1), bps, &[s], &[sub(Kind::Fixed(order, res(true, 0, K::Auto)))])?;
    }
    ch.sample(|| format!("{} bit fixed({}) {:?}+each", bps, order, head));
    Ok(())
}
fn fixed_long(ch: &mut Ch) -> R {
    let bps = ch.pick(&BPS);
    let order = ch.choose(5);
    let n = ch.range(1, ch.t(40, 140));
    let chan = ch.pick(&[Chan::Ind(1), Chan::LS, Chan::RS, Chan::MS]);
    let rice2 = bps > 16 || ch.flag();
    let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| wave(n, bps, c, order + n)).collect();
    let wasted = 0;
    simple(ch, chan, bps, &pcm, &[Sub { kind: Kind::Fixed(order, res(rice2, 0, K::Auto)), wasted }, Sub { kind: Kind::Fixed(4 - order, res(rice2, 0, K::Auto)), wasted }])?;
    ch.sample(|| format!("{} bit fixed({}) {} samples {:?}", bps, order, n, chan));
    Ok(())
}
fn coefs(pat: usize, order: usize, prec: u32) -> Vec<i32> {
    let (lo, hi) = (-(1i32 << (prec - 1)), (1i32 << (prec - 1)) - 1);
    (0..order).map(|i| match pat { 0 => if i == 0 { hi.max(lo) } else { 0 }, 1 => if i == order - 1 { lo } else { 0 }, 2 => hi, 3 => lo, 4 => if i % 2 == 0 { hi } else { lo },
        5 => (lo as i64 + (i as i64 * 0x2545 + 77) % (hi as i64 - lo as i64 + 1)) as i32, _ => if i == order / 2 { 1.min(hi) } else { -((i % 2) as i32) } }).collect()
}
fn lpc_params(ch: &mut Ch) -> R {
    let order = ch.range(1, 32);
    let prec = ch.range(1, 15) as u32;
    let shift = ch.range(0, 15) as u32;
    let pat = ch.choose(7);
    let bss: Vec<usize> = if ch.quick() { vec![order, order + 1, 13.max(order + 2), order + 26] } else { vec![order, order + 1, order + 2, 12.max(order), 13.max(order), 14.max(order), order + 12, order + 13, order + 40] };
    let mut any = false;
    for n in bss {
        for (bps, src) in [(16u32, 0usize), (24, 1), (8, 2)] {
            let mut pcm = match src { 0 => wave(n, 16, 0, pat + order), 1 => (0..n).map(|i| if (i / 2) % 2 == 0 { (1i64 << 23) - 1 } else { -(1i64 << 23) }).collect(), _ => (0..n).map(|i| if (i * i) % 3 == 0 { -128 } else { 127 }).collect() };
            let c = coefs(pat, order, prec);
            let mut ok = false;
            // shrink the signal until the residual fits
            for _ in 0..4 {
                let r = res(true, 0, K::Auto);
                if simple(ch, Chan::Ind(1), bps, &[pcm.clone()], &[sub(Kind::Lpc { coefs: c.clone(), prec, shift, res: r })])? { ok = true; break; }
                for x in &mut pcm { *x >>= 4; }
            }
            any |= ok;
        }
    }
    assert!(any, "no encodable case");
    ch.sample(|| format!("lpc order {} precision {} shift {} coefficients {:?}", order, prec, shift, &coefs(pat, order, prec)[..order.min(6)]));
    Ok(())
}
fn lpc_seqs(ch: &mut Ch) -> R {
    let bps = ch.pick(&[8u32, 16, 24]);
    let (lo, hi) = (-(1i64 << (bps - 1)), (1i64 << (bps - 1)) - 1);
    let alpha = [0, 1, -1, lo, hi];
    let cs: &[(&[i32], u32, u32)] = &[(&[1], 2, 0), (&[-1], 1, 0), (&[3], 3, 1), (&[-7, 5], 4, 2), (&[2, -1], 3, 0), (&[127, -128], 8, 7), (&[16383], 15, 14), (&[-16384], 15, 14), (&[1, -1, 1], 2, 0), (&[5, 3, -2, 1], 5, 3)];
    let (c, prec, shift) = ch.pick(cs);
    let n = ch.range(c.len(), ch.t(5, 6));
    let head: Vec<i64> = (0..n).map(|_| ch.pick(&alpha)).collect();
    for &l in &alpha {
        let mut s = head.clone();
        s.push(l);
        simple(ch, Chan::Ind(1), bps, &[s], &[sub(lpc(c, prec, shift, res(true, 0, K::Auto)))])?;
    }
    ch.sample(|| format!("{} bit lpc {:?} >> {} on {:?}+each", bps, c, shift, head));
    Ok(())
}
/// Every Rice parameter at every bit alignment with quotients and remainders at their boundaries.
fn rice(ch: &mut Ch) -> R {
    let rice2 = ch.flag();
    let k = ch.range(0, if rice2 { 30 } else { 14 }) as u32;
    let align = ch.range(0, 7) as u32;
    // Side channel of 25 bits: the widest residuals of order 0.
    let bits = 25 - align;
    let max = (1u64 << bits) - 1;
    let mut us = vec![];
    let qs: Vec<u64> = if ch.quick() { vec![0, 1, 2, 6, 7, 8, 9, 15, 17, 24, 33] } else { (0..=40).chain([63, 64, 65, 255, 256]).collect() };
    for q in qs { for r in [0u64, 1, (1 << k) >> 1, (1u64 << k).wrapping_sub(1)] { let u = (q << k) | (r & ((1 << k) - 1)); if u <= max { us.push(u); } } }
    us.push(max.min((QMAX - 1) << k));
    us.sort(); us.dedup();
    let unfold = |u: u64| if u & 1 == 1 { -((u >> 1) as i64) - 1 } else { (u >> 1) as i64 };
    let a = ch.pick(&us);
    // left channel chosen so that side = value and both channels stay in range
    for &b in &us {
        if a >> k > 600 && b >> k > 600 { continue; }
        let e: Vec<i64> = [a, b, 1, a ^ 1, 0, b].iter().map(|&u| unfold(u) << align).collect();
        let l: Vec<i64> = e.iter().map(|&x| x >> 1).collect::<Vec<_>>().iter().map(|x| if align > 0 { x >> align << align } else { *x }).collect();
        let r: Vec<i64> = e.iter().zip(&l).map(|(e, l)| l - e).collect();
        // the left channel as verbatim, the side channel with the parameter under test
        simple(ch, Chan::LS, 24, &[l, r], &[Sub { kind: Kind::Verbatim, wasted: 0 }, Sub { kind: Kind::Fixed(0, res(rice2, 0, K::Fixed(k))), wasted: align }])?;
    }
    ch.sample(|| format!("rice{} k={} alignment {} folded {} with each of {}", if rice2 { "2" } else { "" }, k, align, a, us.len()));
    Ok(())
}
/// Residuals up to the 32-bit limit, reached through large predictions.
fn big_residual(ch: &mut Ch) -> R {
    let rice2 = ch.flag();
    let k = if rice2 { ch.range(14, 30) } else { 14 } as u32;
    let d = ch.pick(&[0i64, 1, 2, 3, 1000, 1 << 20, 1 << 28, 1 << 29, 1 << 30, (1 << 30) + 1]);
    let neg = ch.flag();
    let tail = ch.choose(3);
    // residual target: +-(2^31 - 1 - d) = s1 - c*s0
    let e = (1i64 << 31) - 1 - d;
    let e = if neg { -e } else { e };
    let c = if neg { 256i64 } else { -256 };
    // pick s0 with |c*s0| close to |e|, s1 the small rest
    let s0 = (e.abs() / 256).min((1 << 23) - 1);
    let s1 = e + c * s0;
    let lim = 1i64 << 23;
    if s1 < -lim || s1 >= lim { return Ok(()); }
    let mut s = vec![s0, s1];
    s.extend([[0, 0, 5].as_slice(), &[s0, s1, s0], &[-1, 1, -1]][tail]);
    simple(ch, Chan::Ind(1), 24, &[s.clone()], &[sub(lpc(&[c as i32], 10, 0, res(rice2, 0, K::Fixed(k))))])?;
    ch.sample(|| format!("k {} rice2 {} residual {} samples {:?}", k, rice2, e, s));
    Ok(())
}
fn partitions(ch: &mut Ch) -> R {
    let sizes: Vec<usize> = if ch.quick() { (1..=48).chain([64, 96, 128, 192, 256, 576, 1024, 4096]).collect() } else { (1..=160).chain([192, 256, 320, 384, 512, 576, 1024, 1152, 2304, 4096, 4608, 8192, 16384, 32768]).collect() };
    let bs = ch.pick(&sizes);
    let pmax = (bs.trailing_zeros()).min(15);
    let porder = ch.range(0, pmax as usize) as u32;
    let pl = bs >> porder;
    let kind = ch.choose(4);
    let order = match kind { 0 => ch.range(0, 4.min(pl)), 1 => pl.min(4), 2 => pl.min(32), _ => if pl > 1 { ch.range(1, (pl - 1).min(14)) } else { 1 } };
    let rice2 = ch.flag();
    let k = match ch.choose(4) { 0 => K::Auto, 1 => K::Cycle(vec![5, 0, 9, 14]), 2 => K::Cycle(vec![8, 9]), _ => K::Cycle(if rice2 { vec![30, 15, 16, 3] } else { vec![14, 7, 8, 1] }) };
    let r = res(rice2, porder, k.clone());
    let pcm = vec![wave(bs, if bs < 64 { 14 } else { 8 }, 1, bs + order)];
    let kd = if kind < 2 { Kind::Fixed(order, r) } else { lpc(&coefs(5, order, 6), 6, 4, r) };
    let ok = simple(ch, Chan::Ind(1), 16, &pcm, &[sub(kd)])?;
    ch.sample(|| format!("block {} partition order {} order {} {:?} coded {}", bs, porder, order, k, ok));
    Ok(())
}
fn stereo_pairs(ch: &mut Ch) -> R {
    let chan = ch.pick(&[Chan::LS, Chan::RS, Chan::MS, Chan::Ind(2)]);
    let bps = ch.pick(&[8u32, 12]);
    let n = 1i64 << bps;
    let (l, rs): (i64, Vec<i64>) = if bps == 8 { (ch.choose(256) as i64 - 128, (-128..128).collect()) }
        else if ch.quick() { (ch.choose(64) as i64 * 65 - 2048, (-2048..2048).step_by(13).chain([2047]).collect()) } else { (ch.choose(4096) as i64 - 2048, (-n / 2..n / 2).collect()) };
    simple(ch, chan, bps, &[vec![l; rs.len()], rs], &[sub(Kind::Verbatim)])?;
    ch.sample(|| format!("{:?} {} bit left {} with all right", chan, bps, l));
    Ok(())
}
fn stereo_lattice(ch: &mut Ch) -> R {
    let chan = ch.pick(&[Chan::LS, Chan::RS, Chan::MS, Chan::Ind(2)]);
    let bps = ch.pick(&BPS);
    let lat = lattice(bps);
    let i = ch.choose(lat.len());
    let kind = ch.choose(3);
    let kd = match kind { 0 => Kind::Verbatim, 1 => Kind::Fixed(0, res(true, 0, K::Auto)), _ => Kind::Fixed(2, res(true, 0, K::Auto)) };
    simple(ch, chan, bps, &[vec![lat[i]; lat.len()], lat.clone()], &[sub(kd)])?;
    ch.sample(|| format!("{:?} {} bit left {} with {} right values", chan, bps, lat[i], lat.len()));
    Ok(())
}
fn kinds(n: usize, bps: u32) -> Vec<Kind> {
    let r2 = bps > 16;
    vec![Kind::Verbatim, Kind::Fixed(0, res(r2, 0, K::Auto)), Kind::Fixed(1.min(n), res(r2, 0, K::Auto)), Kind::Fixed(2.min(n), res(true, 0, K::Auto)), Kind::Fixed(3.min(n), res(r2, 0, K::Auto)), Kind::Fixed(4.min(n), res(r2, 0, K::Auto)),
         lpc(&[3, -1][..2.min(n)], 4, 1, res(r2, 0, K::Auto)), lpc(&[1, 2, 3, -4, 5, -6, 7, -7, 6, -5, 4, -3, 2][..13.min(n)], 4, 5, res(r2, 0, K::Auto)), Kind::Constant]
}
fn channels(ch: &mut Ch) -> R {
    let n = ch.range(1, 8) as u8;
    let bps = ch.pick(&BPS);
    let bs = ch.pick(&[1usize, 2, 4, 16, 17, 40]);
    let rot = ch.choose(9);
    let ks = kinds(bs, bps);
    let mut pcm: Vec<Vec<i64>> = vec![];
    let mut subs = vec![];
    for c in 0..n as usize {
        let k = ks[(c + rot) % ks.len()].clone();
        pcm.push(if k == Kind::Constant { vec![wave(64, bps, c, 3)[c + 1]; bs] } else { wave(bs, bps, c, c * 3 + 1) });
        subs.push(sub(k));
    }
    if !simple(ch, Chan::Ind(n), bps, &pcm, &subs)? { panic!("not encodable") }
    ch.sample(|| format!("{} channels {} bit {} samples, kinds rotated by {}", n, bps, bs, rot));
    Ok(())
}
/// Each channel's kind chosen independently.
fn channel_kinds(ch: &mut Ch) -> R {
    let n = ch.range(2, ch.t(3, 4));
    let bs = ch.pick(&[13usize, 16]);
    let ks = kinds(bs, 12);
    let mode = if n == 2 { ch.choose(4) } else { 0 };
    let chan = [Chan::Ind(n as u8), Chan::LS, Chan::RS, Chan::MS][mode];
    let mut pcm: Vec<Vec<i64>> = vec![];
    let mut subs = vec![];
    for c in 0..n {
        let k = ch.choose(ks.len());
        pcm.push(if ks[k] == Kind::Constant || mode > 0 && k == 8 { vec![5 + c as i64; bs] } else { wave(bs, 12, c, c * 3 + 1) });
        subs.push(sub(ks[k].clone()));
    }
    simple(ch, chan, 12, &pcm, &subs)?;
    ch.sample(|| format!("{:?} {:?}", chan, subs.iter().map(|s| format!("{:?}", s.kind)).collect::<Vec<_>>()));
    Ok(())
}
fn wasted(ch: &mut Ch) -> R {
    let bps = ch.pick(&BPS);
    let chan = ch.pick(&[Chan::Ind(1), Chan::LS, Chan::RS, Chan::MS]);
    let w0 = ch.choose(bps as usize) as u32;
    let w1 = if chan.n() == 2 { ch.choose(bps as usize) as u32 } else { 0 };
    let k = ch.choose(9);
    let bs = 14;
    // build coded channels with the required zeros, then derive PCM
    let mk = |w: u32, bits: u32, s: usize| -> Vec<i64> { let b = bits - w; if b < 2 { return (0..bs).map(|i| if i % 3 == 1 && k != 8 { -1i64 << w } else { 0 }).collect(); } let v = wave(bs, b, s, s); if k == 8 { vec![v[3] << w; bs] } else { v.iter().map(|x| x << w).collect() } };
    let (c0, c1) = (mk(w0, bps - 1, 1), mk(w1, bps - 1, 2));
    let pcm = match chan { Chan::Ind(_) => vec![c0], Chan::LS => { let r = c0.iter().zip(&c1).map(|(l, s)| l - s).collect(); vec![c0, r] }, Chan::RS => { let l = c0.iter().zip(&c1).map(|(s, r)| s + r).collect(); vec![l, c1] },
        _ => { let (mut l, mut r) = (vec![], vec![]); for (&m, &s) in c0.iter().zip(&c1) { let x = 2 * m + (s & 1); l.push((x + s) >> 1); r.push((x - s) >> 1); } vec![l, r] } };
    let ks = kinds(bs, bps);
    let ok = simple(ch, chan, bps, &pcm, &[Sub { kind: ks[k].clone(), wasted: w0 }, Sub { kind: ks[(k + 3) % 8].clone(), wasted: w1 }])?;
    ch.sample(|| format!("{} bit {:?} wasted {} {} kind {} coded {}", bps, chan, w0, w1, k, ok));
    Ok(())
}
fn blocksizes(ch: &mut Ch) -> R {
    let all = 65535;
    let bs = if ch.choose(2) == 0 { ch.range(1, all) } else { ch.pick(&[4095usize, 4096, 4097, 4608, 4609, 8191, 8192, 8193, 9216, 16383, 16384, 16385, 18432, 32767, 32768, 32769, 36864, 49152, 65533, 65534, 65535]) };
    for code in bs_codes(bs) {
        if code == 7 && bs > 2400 && bs % 7 != 0 && ch.quick() && bs_codes(bs).len() == 1 && bs < 65000 { continue; }
        let mut hd = Hdr::new(bs, Chan::Ind(1), 8, false, 0);
        hd.bs_code = code;
        let v = (bs % 251) as i64 - 125;
        go(ch, &hd, Chan::Ind(1), 8, &[vec![v; bs]], &[sub(Kind::Constant)])?;
        if bs <= ch.t(300, 5000) {
            let w = vec![wave(bs, 8, 0, bs), wave(bs, 8, 1, bs)];
            hd.ch_code = Chan::MS.code();
            go(ch, &hd, Chan::MS, 8, &w, &[sub(Kind::Verbatim), sub(Kind::Fixed(1, res0()))])?;
        }
    }
    ch.sample(|| format!("block size {} in codes {:?}", bs, bs_codes(bs)));
    Ok(())
}
fn big(ch: &mut Ch) -> R {
    let bs = ch.pick(&[65535usize, 65534, 65024, 65280, 65532, 32768, 16384]);
    let kind = ch.choose(4);
    let chan = ch.pick(&[Chan::Ind(1), Chan::Ind(8), Chan::MS]);
    let pmax = bs.trailing_zeros().min(15);
    let kd = match kind { 0 => Kind::Verbatim, 1 => Kind::Fixed(2, res(false, 0, K::Auto)), 2 => Kind::Fixed(if bs >> pmax >= 1 { 1 } else { 0 }, res(true, pmax, K::Auto)), _ => lpc(&[2, -1, 1, 0, 1, -1, 1, 0, 0, 0, 0, 0, 0, 1], 4, 2, res(false, 0, K::Auto)) };
    let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| wave(bs, 12, c, c + kind)).collect();
    simple(ch, chan, 12, &pcm, &[sub(kd)])?;
    heartbeat();
    ch.sample(|| format!("{} samples {:?} kind {}", bs, chan, kind));
    Ok(())
}
/// Every sequence of three frames out of a palette, by blocks (recycling the buffer) and by samples.
fn streams(ch: &mut Ch) -> R {
    let mk = |i: usize| -> Fr {
        let w = |n, bps, c: usize| (0..c).map(|c| wave(n, bps, c, i)).collect::<Vec<_>>();
        match i {
            0 => Fr { chan: Chan::Ind(2), bps: 16, pcm: vec![vec![7; 64], vec![-9; 64]], subs: vec![sub(Kind::Constant)] },
            1 => Fr { chan: Chan::MS, bps: 16, pcm: w(16, 16, 2), subs: vec![sub(Kind::Fixed(2, res(false, 2, K::Auto)))] },
            2 => Fr { chan: Chan::LS, bps: 16, pcm: w(33, 16, 2), subs: vec![sub(lpc(&[3, -2], 4, 1, res0()))] },
            3 => Fr { chan: Chan::RS, bps: 16, pcm: w(1, 16, 2), subs: vec![sub(Kind::Verbatim)] },
            4 => Fr { chan: Chan::Ind(1), bps: 24, pcm: w(48, 24, 1), subs: vec![sub(Kind::Fixed(4, res(true, 3, K::Auto)))] },
            5 => Fr { chan: Chan::Ind(8), bps: 8, pcm: w(5, 8, 8), subs: vec![sub(Kind::Verbatim)] },
            6 => Fr { chan: Chan::Ind(2), bps: 20, pcm: (0..2).map(|c| wave(20, 12, c, 5).iter().map(|x| x << 8).collect()).collect(), subs: vec![Sub { kind: Kind::Fixed(1, res(true, 0, K::Auto)), wasted: 8 }] },
            _ => Fr { chan: Chan::Ind(3), bps: 12, pcm: w(600, 12, 3), subs: vec![sub(lpc(&[1; 20], 3, 4, res0()))] },
        }
    };
    let n = ch.t(3, 4);
    let ids: Vec<usize> = (0..n).map(|_| ch.choose(8)).collect();
    let b = build("stream", Info::new(16, 2, 16, 0), vec![], true, 0, ids.iter().map(|&i| mk(i)).collect());
    let want = expect_all(&b);
    let got = nopanic(&b.bytes, || full(&b.bytes[..]))?;
    if got.obs != want { return violb(format!("frames {:?} by blocks: got {}, expected {}", ids, show(&got.obs), show(&want)), &b.bytes); }
    let got = nopanic(&b.bytes, || claxon::FlacReader::new(&b.bytes[..]).map(|mut r| samples(&mut r.samples(), 1 << 20)).map_err(|e| ec(&e)))?;
    match got { Ok(s) if s.end == Ok(()) && s.v == b.inter() => {} x => return violb(format!("frames {:?} by samples: {}", ids, match x { Ok(s) => format!("{} samples, end {:?}, differ from the encoded ones", s.v.len(), s.end), Err(e) => format!("{:?}", e) }), &b.bytes) }
    ch.execs(2, 2);
    ch.steps(n as u64);
    ch.state(h(&ids));
    ch.sample(|| format!("frame types {:?}", ids));
    Ok(())
}
pub fn c01() -> Prop {
    Prop { id: "C01", level: "model_checking",
        rule: "a case is a set of coding decisions and sample values, encoded by an independent encoder, confirmed by an independent reference decoder, decoded by the real code and compared sample by sample. Non-trivial: encodable (every executed case is); distinct: frame bytes",
        assumptions: &["sample values beyond 8 (quick) / 12 bit pairs are boundary lattices and deterministic waves", "unary quotients up to 2^19"],
        families: vec![
            fam!("raw-values", "5 sample sizes x every wasted-bit count x 4 channel modes x all values (<=8 bit) or the boundary lattice, verbatim in 3 rotations and constant", raw_values),
            fam!("fixed-seqs", "all sequences over {0,1,-1,min,max} up to length 5 (quick) / 7 x 5 fixed orders x 5 sample sizes", fixed_seqs),
            fam!("fixed-long", "fixed orders x block sizes 1..40/140 x 5 sample sizes x 4 channel modes x both residual methods", fixed_long),
            fam!("lpc-params", "order 1..32 x precision 1..15 x shift 0..15 x 7 coefficient patterns x 4/9 block sizes around order and 12 x 3 signals", lpc_params),
            fam!("lpc-seqs", "all sequences over {0,1,-1,min,max} up to length 6/7 x 10 predictors x 3 sample sizes", lpc_seqs),
            fam!("rice", "every Rice (0..14) and Rice2 (0..30) parameter x 8 alignments x all pairs of boundary values (quotients 0..33/256, remainders at their edges)", rice),
            fam!("big-residual", "residuals within 2^30 of the 32-bit limits x parameters 14..30", big_residual),
            fam!("partitions", "block sizes x every legal partition order x predictor orders up to the first partition's size x 4 parameter schedules x 2 methods", partitions),
            fam!("stereo-pairs", "all 2^16 pairs of 8-bit samples in all stereo modes; 12-bit: all 2^24 pairs in thorough, a lattice in quick", stereo_pairs),
            fam!("stereo-lattice", "all pairs of the boundary lattice x 5 sample sizes x 4 modes x 3 codings", stereo_lattice),
            fam!("channels", "1..8 channels x 5 sample sizes x 6 block sizes x 9 rotations of subframe kinds", channels),
            fam!("channel-kinds", "every assignment of 9 subframe kinds to 2..3 (quick) / 4 channels, all stereo modes", channel_kinds),
            fam!("wasted", "every pair of wasted-bit counts x 4 channel modes x 9 kinds x 5 sample sizes", wasted),
            fam!("blocksizes", "every block size up to 65535 (quick: of those above 2400 every seventh and all with a code of their own) in every header code", blocksizes),
            fam!("big", "blocks of up to 65535 samples x 1, 2, 8 channels x 4 kinds", big),
            fam!("streams", "every sequence of 3 (quick) / 4 frames from a palette of 8 very different ones, by blocks and by samples", streams),
            fam!("pool", "about 3000 frames of the pool (block sizes around powers of two, header codes, numbers, predictors, Rice parameters, wasted bits, checksums, corpus) x 4 buffers", p_pool::decode),
            fam!("modes", "every block size up to 2400 and some 200 interesting larger ones (thorough: all) x 11 channel modes with extreme values; varying values up to 160 (1200)", p_pool::modes_sizes),
            fam!("values16", "all 65536 16-bit values, constant and verbatim, alone and in every stereo mode", p_pool::values16),
            fam!("combinations", "frames described by 20 features (strategy, number, size, codes, channels, sample size, kinds, wasted bits, signal, precision, shift, coefficients, residual method, parameter, partitions, buffer, input): all that differ from one of 5 base frames in up to 3 features", p_twise::decode),
            fam!("combinations4", "the same, two base frames and up to 4 features", p_twise::decode4, thorough),
            fam!("combinations-reference", "the same with up to 2 features, against the reference decoder", p_twise::reference),
            fam!("combinations-pairs", "the same, all five base frames and up to 2 features", p_twise::decode_pairs),
            fam!("big-combinations", "28 sizes from 1153 to 65535 x 5 base frames x every change of one of the other features", p_twise::big_decode),
            fam!("big-combinations2", "5 sizes beyond 4608 x 5 base frames x every change of two of the other features", p_twise::big_decode2, thorough),
            fam!("histories", "every sequence of 4 (5) reads by one reader over some 50 events (good frames of many shapes, damage, ill-formed headers and subframes, ends, source errors) that ends in audio, with 4 sorts of buffers", crate::p_hist::hist_audio),
            fam!("repeated", "each of these events 1 to 257 (some 30 numbers) and 66000 times, then audio, with one reader", crate::p_hist::rep_audio),
            fam!("long-runs", "70000 frames by blocks, by one iterator, by an iterator for each frame, mixed", crate::p_hist::long_runs),
            fam!("long-codes", "residuals around every power of two up to 24 bits x every Rice and Rice2 parameter, codes of up to 2^24 zeros", crate::p_hist::long_codes),
            fam!("sparse", "about 110 patterns of zeros and others, in the signal or the residual, x 13 predictors x 7 partition orders x 5 choices of parameters x 4 channel modes x 4 block sizes x 3 values", crate::p_fill::sparse),
            fam!("coefficient-sums", "5 sample sizes x 7 channels of pairs x 10 orders x sums about every power of two up to 2^15 x 5 ways to spread them x 7 full-scale signals x 3 shifts", crate::p_code::coef_range),
            fam!("every-value", "every value of 8, 12, 16, 20 and 24 bit samples: verbatim, as a residual, in two stereo modes against others, predicted", crate::p_real::every_value),
            fam!("long-levels", "9 block sizes up to 65535 x 3 sample sizes x 7 levels x 4 shapes x 8 predictors x 3 channel modes", crate::p_real::long_levels),
            fam!("announced", "5 sequences of frames x stream infos that announce other totals (10), block sizes (6), channels, sample sizes, rates, frame sizes, by blocks and by samples", crate::p_real::announced_ways),
            fam!("partition-parameters", "16 partition orders x 8 lengths of a partition x both residual methods x 7 predictors x every parameter, in all partitions or the first, last or middle one", crate::p_real::partition_parameters)
        ] }
}
