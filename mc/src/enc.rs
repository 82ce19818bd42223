//! A small, independent FLAC encoder: turns explicit coding decisions into bytes.
#![allow(dead_code)]

#[derive(Clone, Default)]
pub struct BitW { pub v: Vec<u8>, used: u32 }
impl BitW {
    pub fn new() -> BitW { BitW::default() }
    pub fn put(&mut self, val: u64, bits: u32) {
        assert!(bits <= 64);
        let mut i = bits;
        while i > 0 {
            if self.used == 0 { self.v.push(0); }
            let room = 8 - self.used;
            let n = room.min(i);
            let chunk = ((val >> (i - n)) & ((1u64 << n) - 1)) as u8;
            *self.v.last_mut().unwrap() |= chunk << (room - n);
            self.used = (self.used + n) % 8;
            i -= n;
        }
    }
    pub fn unary(&mut self, q: u64) {
        let mut z = q;
        while z > 0 { let n = z.min(60) as u32; self.put(0, n); z -= n as u64; }
        self.put(1, 1);
    }
    pub fn signed(&mut self, val: i64, bits: u32) { self.put(val as u64 & (if bits == 64 { !0 } else { (1u64 << bits) - 1 }), bits) }
    pub fn bitlen(&self) -> usize { self.v.len() * 8 - ((8 - self.used as usize) % 8) }
    pub fn align(&mut self) { self.used = 0; }
    pub fn bytes(&mut self, b: &[u8]) { for &x in b { self.put(x as u64, 8) } }
}

// Bit-at-a-time checksums, straight from the polynomials.
const fn tab8() -> [u8; 256] {
    let mut t = [0u8; 256]; let mut i = 0;
    while i < 256 { let mut c = i as u8; let mut k = 0; while k < 8 { c = if c & 0x80 != 0 { (c << 1) ^ 0x07 } else { c << 1 }; k += 1; } t[i] = c; i += 1; }
    t
}
const fn tab16() -> [u16; 256] {
    let mut t = [0u16; 256]; let mut i = 0;
    while i < 256 { let mut c = (i as u16) << 8; let mut k = 0; while k < 8 { c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 }; k += 1; } t[i] = c; i += 1; }
    t
}
static T8: [u8; 256] = tab8();
static T16: [u16; 256] = tab16();
pub fn crc8(b: &[u8]) -> u8 { b.iter().fold(0u8, |c, &x| T8[(c ^ x) as usize]) }
pub fn crc16(b: &[u8]) -> u16 { crc16_from(0, b) }
pub fn crc16_from(c: u16, b: &[u8]) -> u16 { b.iter().fold(c, |c, &x| (c << 8) ^ T16[((c >> 8) as u8 ^ x) as usize]) }

pub const VARCAP: [u32; 8] = [0, 7, 11, 16, 21, 26, 31, 36];
pub fn varint_len(n: u64) -> usize { (1..=7).find(|&l| n < 1u64 << VARCAP[l]).expect("36 bit") }
pub fn varint(n: u64, len: usize) -> Vec<u8> {
    if len == 1 { return vec![n as u8 & 0x7f]; }
    let mut v = vec![0u8; len];
    let mut x = n;
    for i in (1..len).rev() { v[i] = 0x80 | (x & 0x3f) as u8; x >>= 6; }
    let lead = !(0xffu32 >> len) as u8;
    v[0] = lead | if len == 7 { 0 } else { (x as u8) & (0x7f >> len) };
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chan { Ind(u8), LS, RS, MS }
impl Chan {
    pub fn n(&self) -> usize { match *self { Chan::Ind(n) => n as usize, _ => 2 } }
    pub fn code(&self) -> u8 { match *self { Chan::Ind(n) => n - 1, Chan::LS => 8, Chan::RS => 9, Chan::MS => 10 } }
    pub fn extra(&self, ch: usize) -> u32 { match *self { Chan::LS | Chan::MS => (ch == 1) as u32, Chan::RS => (ch == 0) as u32, _ => 0 } }
}

pub fn bps_code(bps: u32) -> u8 { match bps { 8 => 1, 12 => 2, 16 => 4, 20 => 5, 24 => 6, _ => panic!("bps {}", bps) } }
pub fn bs_of_code(c: u8) -> Option<usize> { match c { 1 => Some(192), 2..=5 => Some(576 << (c - 2)), 8..=15 => Some(256 << (c - 8)), _ => None } }
/// Every header code that can express block size `bs`, shortest first.
pub fn bs_codes(bs: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (1..16).filter(|&c| bs_of_code(c) == Some(bs)).collect();
    if bs <= 256 { v.push(6); }
    v.push(7);
    v
}

/// A frame header, every field free.
#[derive(Clone, Debug)]
pub struct Hdr { pub b0: u8, pub b1: u8, pub bs_code: u8, pub sr_code: u8, pub ch_code: u8, pub bps_code: u8, pub res: u8, pub num: Vec<u8>, pub bs_ext: u32, pub sr_ext: u16 }
impl Hdr {
    pub fn new(bs: usize, chan: Chan, bps: u32, variable: bool, number: u64) -> Hdr {
        Hdr { b0: 0xff, b1: 0xf8 | variable as u8, bs_code: bs_codes(bs)[0], sr_code: 9, ch_code: chan.code(), bps_code: bps_code(bps),
              res: 0, num: varint(number, varint_len(number)), bs_ext: (bs - 1) as u32, sr_ext: 0 }
    }
    pub fn nocrc(&self) -> Vec<u8> {
        let mut v = vec![self.b0, self.b1, self.bs_code << 4 | self.sr_code, self.ch_code << 4 | self.bps_code << 1 | self.res];
        v.extend(&self.num);
        match self.bs_code { 6 => v.push(self.bs_ext as u8), 7 => v.extend((self.bs_ext as u16).to_be_bytes()), _ => {} }
        match self.sr_code { 12 => v.push(self.sr_ext as u8), 13 | 14 => v.extend(self.sr_ext.to_be_bytes()), _ => {} }
        v
    }
    pub fn bytes(&self) -> Vec<u8> { let mut v = self.nocrc(); let c = crc8(&v); v.push(c); v }
}

#[derive(Clone, Debug, PartialEq)]
pub enum K { Auto, Fixed(u32), Cycle(Vec<u32>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Res { pub rice2: bool, pub porder: u32, pub k: K }
pub fn res(rice2: bool, porder: u32, k: K) -> Res { Res { rice2, porder, k } }
pub fn res0() -> Res { res(false, 0, K::Auto) }
#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Constant, Verbatim, Fixed(usize, Res), Lpc { coefs: Vec<i32>, prec: u32, shift: u32, res: Res } }
#[derive(Clone, Debug, PartialEq)]
pub struct Sub { pub kind: Kind, pub wasted: u32 }
pub fn sub(kind: Kind) -> Sub { Sub { kind, wasted: 0 } }

pub fn fold(e: i64) -> u64 { if e >= 0 { 2 * e as u64 } else { (-2 * e - 1) as u64 } }
pub const FIXED: [&[i64]; 5] = [&[], &[1], &[2, -1], &[3, -3, 1], &[4, -6, 4, -1]]; // most recent first
/// Most zeros in a unary code the encoder will write before calling a parameter unusable.
pub const QMAX: u64 = 1 << 19;
thread_local! { pub static QLIM: std::cell::Cell<u64> = const { std::cell::Cell::new(QMAX) }; }

pub fn put_residual(w: &mut BitW, e: &[i64], bs: usize, order: usize, r: &Res) -> Option<()> {
    w.put(r.rice2 as u64, 2);
    w.put(r.porder as u64, 4);
    let parts = 1usize << r.porder;
    if bs % parts != 0 || bs / parts < order { return None; }
    let plen = bs / parts;
    let kbits = if r.rice2 { 5 } else { 4 };
    let kmax = if r.rice2 { 30 } else { 14 };
    let qlim = QLIM.with(|q| q.get());
    let mut at = 0;
    for p in 0..parts {
        let n = if p == 0 { plen - order } else { plen };
        let part = &e[at..at + n];
        at += n;
        let maxu = part.iter().map(|&x| fold(x)).max().unwrap_or(0);
        let k = match &r.k { K::Fixed(k) => *k, K::Cycle(v) => v[p % v.len()],
                             K::Auto => (0..=kmax).find(|&k| maxu >> k <= 6).unwrap_or(kmax) };
        if k > kmax { return None; }
        w.put(k as u64, kbits);
        for &x in part {
            let u = fold(x);
            if x.abs() >= 1 << 31 || u >> k > qlim { return None; }
            w.unary(u >> k);
            w.put(u & ((1 << k) - 1), k);
        }
    }
    Some(())
}
pub fn residual(s: &[i64], coefs: &[i64], shift: u32) -> Vec<i64> {
    (coefs.len()..s.len()).map(|i| s[i] - (coefs.iter().enumerate().map(|(j, &c)| c * s[i - 1 - j]).sum::<i64>() >> shift)).collect()
}
pub fn put_sub(w: &mut BitW, s: &[i64], bps: u32, sub: &Sub) -> Option<()> {
    let code = match &sub.kind { Kind::Constant => 0, Kind::Verbatim => 1, Kind::Fixed(o, _) => 8 + *o as u64, Kind::Lpc { coefs, .. } => 32 + coefs.len() as u64 - 1 };
    w.put(code, 7);
    w.put((sub.wasted > 0) as u64, 1);
    if sub.wasted > 0 { w.unary(sub.wasted as u64 - 1); }
    if sub.wasted >= bps { return None; }
    let b = bps - sub.wasted;
    if s.iter().any(|&x| x & ((1 << sub.wasted) - 1) != 0) { return None; }
    let t: Vec<i64> = s.iter().map(|&x| x >> sub.wasted).collect();
    let lim = 1i64 << (b - 1);
    if t.iter().any(|&x| x < -lim || x >= lim) { return None; }
    match &sub.kind {
        Kind::Constant => { if t.iter().any(|&x| x != t[0]) { return None; } w.signed(t[0], b) }
        Kind::Verbatim => for &x in &t { w.signed(x, b) },
        Kind::Fixed(o, r) => {
            if t.len() < *o { return None; }
            for &x in &t[..*o] { w.signed(x, b) }
            put_residual(w, &residual(&t, FIXED[*o], 0), t.len(), *o, r)?;
        }
        Kind::Lpc { coefs, prec, shift, res } => {
            let o = coefs.len();
            if t.len() < o { return None; }
            for &x in &t[..o] { w.signed(x, b) }
            w.put(*prec as u64 - 1, 4);
            w.put(*shift as u64, 5);
            let cl = 1i32 << (prec - 1);
            for &c in coefs { if c < -cl || c >= cl { return None; } w.signed(c as i64, *prec) }
            let c: Vec<i64> = coefs.iter().map(|&c| c as i64).collect();
            put_residual(w, &residual(&t, &c, *shift), t.len(), o, res)?;
        }
    }
    Some(())
}
/// Splits left/right PCM into the two coded channels.
pub fn decorrelate(chan: Chan, pcm: &[Vec<i64>]) -> Vec<Vec<i64>> {
    if let Chan::Ind(_) = chan { return pcm.to_vec(); }
    let side: Vec<i64> = pcm[0].iter().zip(&pcm[1]).map(|(l, r)| l - r).collect();
    match chan {
        Chan::LS => vec![pcm[0].clone(), side],
        Chan::RS => vec![side, pcm[1].clone()],
        _ => vec![pcm[0].iter().zip(&pcm[1]).map(|(l, r)| (l + r) >> 1).collect(), side],
    }
}
/// Header + subframes + checksum. None if the samples cannot be coded like that.
pub fn frame(h: &Hdr, chan: Chan, bps: u32, pcm: &[Vec<i64>], subs: &[Sub]) -> Option<Vec<u8>> {
    let mut w = BitW::new();
    for (i, c) in decorrelate(chan, pcm).iter().enumerate() { put_sub(&mut w, c, bps + chan.extra(i), &subs[i % subs.len()])?; }
    let mut v = h.bytes();
    v.extend(&w.v);
    let c = crc16(&v);
    v.extend(c.to_be_bytes());
    Some(v)
}
/// The common case: automatic header.
pub fn quick_frame(chan: Chan, bps: u32, variable: bool, number: u64, pcm: &[Vec<i64>], subs: &[Sub]) -> Option<Vec<u8>> {
    frame(&Hdr::new(pcm[0].len(), chan, bps, variable, number), chan, bps, pcm, subs)
}
/// Repairs both checksums of a frame that occupies all of `v`.
pub fn fix_crc16(v: &mut [u8]) { let n = v.len(); let c = crc16(&v[..n - 2]); v[n - 2..].copy_from_slice(&c.to_be_bytes()); }

// ------------------------------------------------------------ metadata

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Info { pub minb: u16, pub maxb: u16, pub minf: u32, pub maxf: u32, pub rate: u32, pub ch: u32, pub bps: u32, pub samples: u64, pub md5: [u8; 16] }
impl Info {
    pub fn new(bs: u16, ch: u32, bps: u32, samples: u64) -> Info {
        Info { minb: bs, maxb: bs, minf: 0, maxf: 0, rate: 44100, ch, bps, samples, md5: *b"0123456789abcdef" }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = BitW::new();
        w.put(self.minb as u64, 16); w.put(self.maxb as u64, 16); w.put(self.minf as u64, 24); w.put(self.maxf as u64, 24);
        w.put(self.rate as u64, 20); w.put(self.ch as u64 - 1, 3); w.put(self.bps as u64 - 1, 5); w.put(self.samples, 36);
        w.bytes(&self.md5);
        assert_eq!(w.v.len(), 34);
        w.v
    }
}
pub fn block(last: bool, ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![(last as u8) << 7 | ty];
    v.extend(&(body.len() as u32).to_be_bytes()[1..]);
    v.extend(body);
    v
}
pub fn vorbis(vendor: &[u8], comments: &[&[u8]]) -> Vec<u8> {
    let mut v = (vendor.len() as u32).to_le_bytes().to_vec();
    v.extend(vendor);
    v.extend((comments.len() as u32).to_le_bytes());
    for c in comments { v.extend((c.len() as u32).to_le_bytes()); v.extend(*c); }
    v
}
/// The marker and all metadata blocks (streaminfo first, last flag set on the final one).
pub fn head(info: &Info, blocks: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut v = b"fLaC".to_vec();
    v.extend(block(blocks.is_empty(), 0, &info.bytes()));
    for (i, (t, b)) in blocks.iter().enumerate() { v.extend(block(i + 1 == blocks.len(), *t, b)); }
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Blk { pub time: u64, pub dur: u32, pub ch: u32, pub data: Vec<i32> }
/// A finished stream with what it should decode to.
#[derive(Clone)]
pub struct Built { pub name: &'static str, pub bytes: Vec<u8>, pub meta_offs: Vec<usize>, pub frame_offs: Vec<usize>, pub blks: Vec<Blk>, pub info: Info, pub vendor: Option<String>, pub tags: Vec<(String, String)> }
impl Built {
    pub fn audio(&self) -> &[u8] { &self.bytes[self.frame_offs[0]..] }
    /// Interleaved samples.
    pub fn inter(&self) -> Vec<i32> { self.blks.iter().flat_map(inter).collect() }
}
pub fn inter(b: &Blk) -> Vec<i32> {
    (0..b.dur as usize).flat_map(|i| (0..b.ch as usize).map(move |c| b.data[c * b.dur as usize + i])).collect()
}
pub struct Fr { pub chan: Chan, pub bps: u32, pub pcm: Vec<Vec<i64>>, pub subs: Vec<Sub> }
/// Builds a stream. Fixed strategy: the stream block size is that of the first frame.
pub fn build(name: &'static str, info: Info, blocks: Vec<(u8, Vec<u8>)>, variable: bool, start: u64, frs: Vec<Fr>) -> Built {
    let mut bytes = head(&info, &blocks);
    let mut meta_offs = vec![0, 4];
    let mut at = 4 + 38;
    meta_offs.push(at);
    for b in &blocks { at += 4 + b.1.len(); meta_offs.push(at); }
    assert_eq!(at, bytes.len());
    let mut frame_offs = vec![bytes.len()];
    let mut blks = vec![];
    let sbs = frs.first().map_or(0, |f| f.pcm[0].len()) as u64;
    let mut time = if variable { start } else { start * sbs };
    for (i, f) in frs.iter().enumerate() {
        let bs = f.pcm[0].len();
        let num = if variable { time } else { start + i as u64 };
        let fb = quick_frame(f.chan, f.bps, variable, num, &f.pcm, &f.subs).unwrap_or_else(|| panic!("corpus {} frame {}", name, i));
        bytes.extend(fb);
        frame_offs.push(bytes.len());
        blks.push(Blk { time, dur: bs as u32, ch: f.chan.n() as u32, data: f.pcm.iter().flatten().map(|&x| x as i32).collect() });
        time += bs as u64;
    }
    Built { name, bytes, meta_offs, frame_offs, blks, info, vendor: None, tags: vec![] }
}
pub fn with_tags(mut b: Built, vendor: &str, tags: &[(&str, &str)]) -> Built {
    b.vendor = Some(vendor.into());
    b.tags = tags.iter().map(|(a, c)| (a.to_string(), c.to_string())).collect();
    b
}
/// A deterministic wavy signal within `bps` bits, different for every (ch, seed).
pub fn wave(n: usize, bps: u32, ch: usize, seed: usize) -> Vec<i64> {
    let lim = (1i64 << (bps - 1)) - 1;
    let amp = lim * 3 / 4;
    (0..n).map(|i| {
        let p = ((i * (3 + ch) + seed * 7 + ch * 5) % 64) as i64;
        let tri = if p < 32 { p - 16 } else { 48 - p }; // -16..16
        let noise = ((i * 31 + seed * 17 + ch * 11 + i * i) % 7) as i64 - 3;
        (tri * amp / 16 + noise).clamp(-lim - 1, lim)
    }).collect()
}
pub fn lpc(coefs: &[i32], prec: u32, shift: u32, r: Res) -> Kind { Kind::Lpc { coefs: coefs.to_vec(), prec, shift, res: r } }

/// Small streams that together use every coding tool.
pub fn corpus() -> &'static [Built] {
    static C: std::sync::OnceLock<Vec<Built>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let f = |chan: Chan, bps, n, seed, subs: Vec<Sub>| Fr { chan, bps, pcm: (0..chan.n()).map(|c| wave(n, bps, c, seed)).collect(), subs };
        let cst = |chan: Chan, bps, n, v: i64| Fr { chan, bps, pcm: (0..chan.n()).map(|c| vec![v + c as i64; n]).collect(), subs: vec![sub(Kind::Constant)] };
        let vc = vorbis(b"vend", &[b"ARTIST=a", b"", b"Title=b=c", b"artist=z"]);
        let tags = [("ARTIST", "a"), ("Title", "b=c"), ("artist", "z")];
        let mut v = vec![];
        v.push(build("mono16", Info::new(16, 1, 16, 40), vec![], false, 0, vec![
            f(Chan::Ind(1), 16, 16, 1, vec![sub(Kind::Fixed(2, res(false, 1, K::Auto)))]),
            cst(Chan::Ind(1), 16, 16, -77),
            f(Chan::Ind(1), 16, 8, 2, vec![sub(Kind::Verbatim)]) ]));
        v.push(with_tags(build("stereo16", Info { minb: 16, maxb: 24, ..Info::new(16, 2, 16, 0) }, vec![(4, vc.clone()), (1, vec![0; 5])], true, 0, vec![
            f(Chan::MS, 16, 16, 3, vec![sub(lpc(&[3, -1], 4, 1, res(false, 2, K::Auto))), sub(Kind::Fixed(1, res0()))]),
            f(Chan::LS, 16, 24, 4, vec![sub(Kind::Fixed(3, res(true, 0, K::Auto))), sub(Kind::Fixed(4, res(false, 2, K::Auto)))]),
            f(Chan::RS, 16, 17, 5, vec![sub(Kind::Fixed(0, res(true, 0, K::Auto))), sub(Kind::Verbatim)]),
            f(Chan::Ind(2), 16, 16, 6, vec![sub(Kind::Fixed(2, res(false, 3, K::Auto))), sub(lpc(&[1; 16], 6, 4, res0()))]) ]), "vend", &tags));
        v.push(build("eight8", Info::new(16, 8, 8, 32), vec![(2, b"testdata".to_vec())], false, 0, vec![
            f(Chan::Ind(8), 8, 16, 7, vec![sub(Kind::Fixed(1, res0())), sub(Kind::Verbatim)]),
            cst(Chan::Ind(8), 8, 16, -128) ]));
        let wst = |n, seed| Fr { chan: Chan::Ind(2), bps: 24, pcm: (0..2).map(|c| wave(n, 20, c, seed).iter().map(|x| x << 4).collect()).collect(),
            subs: vec![Sub { kind: Kind::Fixed(2, res(true, 1, K::Auto)), wasted: 4 }, Sub { kind: lpc(&[7, -3, 1], 5, 2, res(true, 0, K::Auto)), wasted: 3 }] };
        v.push(build("deep24", Info::new(32, 2, 24, 64), vec![(3, vec![0xff; 18]), (6, vec![9; 7]), (5, vec![1; 3])], false, 0, vec![
            wst(32, 8), f(Chan::MS, 24, 32, 9, vec![sub(Kind::Fixed(1, res(true, 0, K::Auto))), sub(Kind::Verbatim)]) ]));
        v.push(with_tags(build("mixed", Info { minb: 16, maxb: 64, ..Info::new(16, 1, 12, 0) }, vec![(1, vec![]), (100, vec![3; 4]), (4, vc)], true, 5, vec![
            f(Chan::Ind(1), 12, 1, 1, vec![sub(Kind::Verbatim)]),
            f(Chan::Ind(3), 20, 3, 2, vec![sub(Kind::Fixed(1, res(true, 0, K::Auto)))]),
            f(Chan::Ind(2), 8, 2, 3, vec![sub(Kind::Verbatim)]),
            f(Chan::Ind(1), 16, 40, 4, vec![sub(Kind::Fixed(4, res(false, 3, K::Auto)))]),
            f(Chan::LS, 12, 5, 5, vec![sub(Kind::Fixed(2, res0()))]) ]), "vend", &tags));
        v.push(build("empty", Info::new(4096, 2, 16, 0), vec![], false, 0, vec![]));
        v
    })
}

/// Streams of three frames: every subframe kind in every channel assignment, sample sizes rotating.
pub fn zoo() -> &'static [Built] {
    static C: std::sync::OnceLock<Vec<Built>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut kinds: Vec<(Kind, usize)> = vec![(Kind::Constant, 1), (Kind::Verbatim, 1)];
        for o in 0..=4 { for r2 in [false, true] { kinds.push((Kind::Fixed(o, res(r2, (o % 3) as u32, K::Auto)), o)); } }
        for o in [1usize, 2, 5, 8, 9, 12, 13, 16, 32] { let c: Vec<i32> = (0..o).map(|i| [3, -2, 1, 0, -1][i % 5]).collect(); kinds.push((lpc(&c, 3 + (o as u32 % 12), 1 + (o as u32 % 3), res(o % 2 == 0, if o == 32 { 0 } else { 1 }, K::Auto)), o)); }
        let chans: Vec<Chan> = (1..=8).map(Chan::Ind).chain([Chan::LS, Chan::RS, Chan::MS]).collect();
        let mut v = vec![];
        let mut n = 0usize;
        for (k, o) in &kinds { for &c in &chans {
            n += 1;
            let bps = [8u32, 12, 16, 20, 24][n % 5];
            let wasted = if c == Chan::MS { 0 } else { [0u32, 0, 2, 0, 1][(n / 5) % 5] };
            let fr = |bs: usize, seed: usize| -> Option<Fr> {
                let bs = bs.max(*o);
                let bs = if let Kind::Fixed(_, r) | Kind::Lpc { res: r, .. } = k { let p = 1usize << r.porder; (bs + p - 1) / p * p } else { bs };
                let bs = if let Kind::Fixed(_, r) | Kind::Lpc { res: r, .. } = k { bs.max(*o << r.porder) } else { bs };
                // the small Rice parameters of the first method only suit quiet signals
                let quiet = if let Kind::Fixed(_, r) | Kind::Lpc { res: r, .. } = k { if r.rice2 { 1 } else { bps.saturating_sub(12) } } else { 1 };
                let pcm: Vec<Vec<i64>> = (0..c.n()).map(|i| match k { Kind::Constant => vec![((seed % 9 * 3 + i) as i64) << wasted; bs], _ => wave(bs, bps - quiet.max(1) - wasted, i, seed).iter().map(|x| x << wasted).collect() }).collect();
                let f = Fr { chan: c, bps, pcm, subs: vec![Sub { kind: k.clone(), wasted }] };
                quick_frame(c, bps, true, 0, &f.pcm, &f.subs).map(|_| f)
            };
            let fs: Vec<Fr> = [(7usize, n), (16, n + 1), (1, n + 2)].iter().filter_map(|&(b, s)| fr(b, s)).collect();
            if fs.len() < 3 { panic!("zoo: {:?} {:?} {} bit", k, c, bps) }
            v.push(build("zoo", Info { minb: 16, maxb: 64, ..Info::new(16, c.n() as u32, bps, 0) }, vec![], true, n as u64 * 1000, fs));
        } }
        v
    })
}
/// A corpus stream with `pad` bytes of padding metadata inserted before the audio.
pub fn padded(b: &Built, pad: usize) -> Built {
    let m = b.frame_offs[0];
    let mut bytes = b.bytes[..m].to_vec();
    // clear the last-block flag of the final block
    let l = b.meta_offs[b.meta_offs.len() - 2];
    bytes[l] &= 0x7f;
    bytes.extend(block(true, 1, &vec![0x5a; pad]));
    let d = bytes.len() - m;
    bytes.extend(&b.bytes[m..]);
    let mut r = b.clone();
    r.bytes = bytes;
    r.meta_offs.push(m + d);
    for o in &mut r.frame_offs { *o += d; }
    r
}
/// Interesting numbers: small ones, and those around powers of two, their multiples by three, and powers of ten.
pub fn edges(small: u64, max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=small.min(max)).collect();
    for k in 1..63u32 {
        for d in -2i64..=2 { v.push((1i64 << k).wrapping_add(d) as u64); }
        if k < 61 { for d in -1i64..=1 { v.push((3i64 << k).wrapping_add(d) as u64); } }
        if k < 19 { for d in -1i64..=1 { v.push(10i64.pow(k).wrapping_add(d) as u64); } }
    }
    v.push(max); v.push(max.saturating_sub(1));
    v.retain(|&x| x <= max);
    v.sort(); v.dedup();
    v
}
/// Interesting block sizes.
pub fn sizes(small: usize) -> Vec<usize> {
    let mut v: Vec<usize> = edges(small as u64, 65535).iter().map(|&x| x as usize).collect();
    for b in [192usize, 576, 1152, 2304, 4608] { for m in 1..=4 { for d in [-1i64, 0, 1] { v.push((b as i64 * m + d) as usize); } } }
    v.extend([21845, 21846, 43690, 43691, 40000, 44100, 48000, 50000, 60000, 61680]);
    v.retain(|&x| x >= 1 && x <= 65535);
    v.sort(); v.dedup();
    v
}
/// One frame on its own, with what it decodes to.
pub struct Pf { pub bytes: Vec<u8>, pub blk: Blk, pub bps: u32, pub variable: bool, pub what: String }
/// About three thousand single frames that between them vary everything a frame can vary in.
pub fn frames() -> &'static [Pf] {
    static C: std::sync::OnceLock<Vec<Pf>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<Pf> = vec![];
        let chans: Vec<Chan> = (1..=8).map(Chan::Ind).chain([Chan::LS, Chan::RS, Chan::MS]).collect();
        let bpss = [8u32, 12, 16, 20, 24];
        let mut add = |h: &Hdr, chan: Chan, bps: u32, pcm: &[Vec<i64>], subs: &[Sub], number: u64, what: String| -> bool {
            match frame(h, chan, bps, pcm, subs) {
                None => false,
                Some(bytes) => {
                    let dur = pcm[0].len() as u64;
                    let variable = h.b1 & 1 == 1;
                    v.push(Pf { bytes, blk: Blk { time: if variable { number } else { number * dur }, dur: dur as u32, ch: chan.n() as u32, data: pcm.iter().flatten().map(|&x| x as i32).collect() }, bps, variable, what });
                    true
                }
            }
        };
        // block sizes
        for (i, &n) in sizes(40).iter().enumerate() { for j in 0..3 {
            let bps = bpss[(i + j) % 5];
            let big = n > 1300;
            if big && j == 2 { continue; }
            let chan = if big { [Chan::Ind(1), Chan::Ind(2), Chan::LS, Chan::RS, Chan::MS][(i + j) % 5] } else { chans[(i * 3 + j * 4) % 11] };
            let k = if big { Kind::Constant } else { match (i + j) % 5 { 0 => Kind::Verbatim, 1 => Kind::Constant, 2 => Kind::Fixed(2.min(n), res(true, n.trailing_zeros().min(3).min(if n < 8 { 0 } else { 9 }), K::Auto)), 3 => lpc(&[2, -1, 1][..3.min(n)], 4, 1, res(true, 0, K::Auto)), _ => Kind::Fixed(4.min(n), res(true, 0, K::Auto)) } };
            let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| if k == Kind::Constant { vec![(c as i64 * 17 + n as i64 % 60) - 100; n] } else { wave(n, bps - 1, c, n) }).collect();
            let number = [0u64, 3, 130, 70_000][(i + j) % 4];
            let variable = (i + j) % 3 == 0;
            add(&Hdr::new(n, chan, bps, variable, number), chan, bps, &pcm, &[sub(k)], number, format!("{} samples {:?}", n, chan));
        } }
        // header codes
        for bc in 1..16u8 { for sc in 0..15u8 {
            let n = match bc { 6 => 1 + sc as usize * 18, 7 => 1 + sc as usize * 4001, c => bs_of_code(c).unwrap() };
            let i = bc as usize * 15 + sc as usize;
            let chan = if n > 3000 { Chan::Ind(1 + (i % 2) as u8) } else { chans[i % 11] };
            let bps = bpss[(i / 11) % 5];
            let variable = i % 2 == 0;
            let number = (0x9_3b5a_c7e1u64 >> (i * 7 % 36)) & if variable { !0 } else { 0x7fff_ffff };
            let mut h = Hdr::new(n, chan, bps, variable, number);
            h.bs_code = bc; h.sr_code = sc; h.sr_ext = (i * 269) as u16;
            let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| vec![c as i64 - 3; n]).collect();
            add(&h, chan, bps, &pcm, &[sub(Kind::Constant)], number, format!("block size code {} rate code {}", bc, sc));
        } }
        // numbers
        for (i, &n) in edges(20, (1 << 36) - 1).iter().enumerate() {
            let variable = n >= 1 << 31 || i % 2 == 0;
            let len = 1 + i % 20;
            add(&Hdr::new(len, Chan::Ind(1), 8, variable, n), Chan::Ind(1), 8, &[vec![i as i64 % 100; len]], &[sub(Kind::Constant)], n, format!("number {}", n));
        }
        // predictors
        for o in 1..=32usize { for prec in 1..=15u32 {
            let n = o + (prec as usize * o) % 23;
            let lim = 1i64 << (prec - 1);
            let c: Vec<i32> = (0..o).map(|i| ([1i64, -1, 0, 2, -2, 1][(i + prec as usize) % 6].clamp(-lim, lim - 1)) as i32).collect();
            let bps = bpss[(o + prec as usize) % 5];
            let pcm = vec![wave(n, bps - 2, 0, o * prec as usize)];
            add(&Hdr::new(n, Chan::Ind(1), bps, true, 9), Chan::Ind(1), bps, &pcm, &[sub(lpc(&c, prec, prec % 5, res(true, 0, K::Auto)))], 9, format!("order {} precision {}", o, prec));
        } }
        for o in 0..=4usize { for n in o.max(1)..=o + 20 { for r2 in [false, true] { for (ci, &chan) in [Chan::Ind(1), Chan::LS, Chan::MS].iter().enumerate() {
            let pcm: Vec<Vec<i64>> = (0..chan.n()).map(|c| wave(n, if r2 { 15 } else { 11 }, c, n + ci)).collect();
            let p = if n % 4 == 0 && n / 4 >= o { 2 } else if n % 2 == 0 && n / 2 >= o { 1 } else { 0 };
            add(&Hdr::new(n, chan, 16, false, 1), chan, 16, &pcm, &[sub(Kind::Fixed(o, res(r2, p, K::Auto)))], 1, format!("fixed order {} of {}", o, n));
        } } } }
        // Rice parameters
        for r2 in [false, true] { for k in 0..=(if r2 { 30u32 } else { 14 }) { for q in 0..4usize {
            let s: Vec<i64> = (0..24usize).map(|i| { let m = ((1i64 << k) >> 1) * [0, 1, 3, 9][(i + q) % 4] + (i as i64 * 7 % 5) - 2; m.clamp(-(1 << 23), (1 << 23) - 1) }).collect();
            add(&Hdr::new(24, Chan::Ind(1), 24, true, 0), Chan::Ind(1), 24, &[s], &[sub(Kind::Fixed(0, res(r2, q as u32, if k == 0 { K::Fixed(k) } else { K::Cycle(vec![k, k.max(4) - 1, k]) })))], 0, format!("Rice parameter {}", k));
        } } }
        // wasted bits
        for &bps in &bpss { for w in 0..bps { for (j, k) in [Kind::Constant, Kind::Verbatim, Kind::Fixed(1, res(true, 0, K::Auto)), lpc(&[1], 2, 0, res(true, 0, K::Auto))].into_iter().enumerate() {
            let n = 4 + j * 7;
            let b = bps - w;
            let s: Vec<i64> = (0..n).map(|i| if k == Kind::Constant { -1i64 << w } else if b < 3 { -((i % 2) as i64) << w } else { wave(n, b - 1, j, w as usize)[i] << w }).collect();
            add(&Hdr::new(n, Chan::Ind(1), bps, false, 2), Chan::Ind(1), bps, &[s], &[Sub { kind: k, wasted: w }], 2, format!("{} bit {} wasted", bps, w));
        } } }
        // checksums of particular values
        let want16 = [0u16, 1, 0xff, 0x100, 0xff00, 0xffff, 0xfff8, 0xfff9, 0x8000, 0x7fff, 0x00fe, 0x0080];
        for t in 0..65536i64 {
            let s = t - 32768;
            let h = Hdr::new(16, Chan::Ind(1), 16, true, 0);
            let f = frame(&h, Chan::Ind(1), 16, &[vec![s; 16]], &[sub(Kind::Constant)]).unwrap();
            let c = u16::from_be_bytes([f[f.len() - 2], f[f.len() - 1]]);
            if want16.contains(&c) { add(&h, Chan::Ind(1), 16, &[vec![s; 16]], &[sub(Kind::Constant)], 0, format!("frame checksum {:#x}", c)); }
        }
        let mut seen = [false; 256];
        for n in 0..3000u64 {
            let h = Hdr::new(5, Chan::Ind(1), 8, true, n);
            let c = *h.bytes().last().unwrap();
            if std::mem::replace(&mut seen[c as usize], true) { continue; }
            add(&h, Chan::Ind(1), 8, &[vec![4; 5]], &[sub(Kind::Constant)], n, format!("header checksum {:#x}", c));
        }
        drop(add);
        for b in corpus().iter().chain(zoo()) { for (i, w) in b.frame_offs.windows(2).enumerate() {
            let f = &b.bytes[w[0]..w[1]];
            let variable = f[1] & 1 == 1;
            let blk = b.blks[i].clone();
            // A shorter last frame of a fixed-blocksize stream does not stand on its own.
            if !variable && blk.time % blk.dur as u64 != 0 || b.name == "mono16" && i == 2 { continue; }
            let bps = [0, 8, 12, 0, 16, 20, 24, 0][(f[3] >> 1 & 7) as usize];
            v.push(Pf { bytes: f.to_vec(), blk, bps, variable, what: b.name.to_string() });
        } }
        v
    })
}
/// Every one of those frames as a stream, followed by a small frame where there can be one.
pub fn pool_streams() -> &'static [Built] {
    static C: std::sync::OnceLock<Vec<Built>> = std::sync::OnceLock::new();
    C.get_or_init(|| frames().iter().enumerate().map(|(i, f)| {
        let info = Info { minb: 16, maxb: 65535, ..Info::new(16, f.blk.ch, f.bps.max(4), 0) };
        let mut bytes = head(&info, &[]);
        let m = bytes.len();
        let mut frame_offs = vec![m];
        let mut blks = vec![f.blk.clone()];
        bytes.extend(&f.bytes);
        frame_offs.push(bytes.len());
        let (number, n) = if f.variable { (f.blk.time + f.blk.dur as u64, 1 + i % 7) } else { (f.blk.time / f.blk.dur as u64 + 1, f.blk.dur as usize) };
        if number < if f.variable { 1 << 36 } else { 1 << 31 } {
            let pcm = vec![if n > 24 { vec![i as i64 % 1000; n] } else { wave(n, 15, 0, i) }];
            bytes.extend(quick_frame(Chan::Ind(1), 16, f.variable, number, &pcm, &[sub(if n > 24 { Kind::Constant } else { Kind::Fixed(n.min(1), res(true, 0, K::Auto)) })]).unwrap());
            frame_offs.push(bytes.len());
            blks.push(Blk { time: f.blk.time + f.blk.dur as u64, dur: n as u32, ch: 1, data: pcm[0].iter().map(|&x| x as i32).collect() });
        }
        Built { name: "pool", bytes, meta_offs: vec![0, 4, m], frame_offs, blks, info, vendor: None, tags: vec![] }
    }).collect())
}
/// Those of them with small frames.
pub fn small_pool() -> &'static [&'static Built] {
    static C: std::sync::OnceLock<Vec<&'static Built>> = std::sync::OnceLock::new();
    C.get_or_init(|| pool_streams().iter().filter(|b| b.bytes.len() < 300 && b.blks[0].data.len() <= 2000).collect())
}
