//! Parameters, color programs and calls of the codec's public entry points.
use crate::*;
use gfwx::{
    ChannelTransformBuilder, ColorTransformProgram, CompressError, DecompressError, Encoder, Filter,
    Header, HeaderBuilder,
};

#[derive(Clone, Debug)]
pub struct P {
    pub w: usize,
    pub h: usize,
    pub layers: usize,
    pub channels: usize,
    pub quality: usize,
    pub cs: usize,
    pub bs: usize,
    pub filter: usize,
    pub encoder: usize,
}

#[derive(Clone, Debug)]
pub struct T {
    pub dest: usize,
    pub factors: Vec<(usize, i64)>,
    pub denom: i64,
    pub chroma: bool,
}

pub fn filter(f: usize) -> Filter {
    if f == 0 {
        Filter::Linear
    } else {
        Filter::Cubic
    }
}
pub fn encoder(e: usize) -> Encoder {
    match e {
        0 => Encoder::Turbo,
        1 => Encoder::Fast,
        _ => Encoder::Contextual,
    }
}

impl P {
    pub fn n(&self) -> usize {
        self.layers * self.channels
    }
    pub fn size(&self) -> usize {
        self.w * self.h
    }
    pub fn total(&self) -> usize {
        self.n() * self.size()
    }
    /// what a header says besides: intent, bytes of metadata, version, bits per sample. The samples do not depend on it.
    pub fn side(&self) -> (usize, u32, u32, u8) {
        let mut k = 0x9E37_79B9u64;
        for v in [self.w, self.h, self.layers, self.channels, self.quality, self.cs, self.bs, self.filter, self.encoder] {
            k = (k ^ v as u64).wrapping_mul(0x0100_0000_01B3).rotate_left(29);
        }
        k ^= k >> 31;
        let mut take = |n: u64| {
            k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((k >> 33) % n) as usize
        };
        let intent = [0, 0, 0, 1, 2, 3, 4, 5][take(8)];
        let meta = [0, 0, 0, 4, 8, 1024, 65536 * 4 + 8, !3u32][take(8)];
        let version = [1, 1, 1, 1, 1, 0, 2, !0u32][take(8)];
        let depth = [8, 8, 8, 8, 8, 1, 5, 7][take(8)];
        (intent, meta, version, depth)
    }
    pub fn header(&self) -> Header {
        let (intent, meta, version, depth) = self.side();
        let mut h = HeaderBuilder {
            width: self.w as u32,
            height: self.h as u32,
            layers: self.layers as u16,
            channels: self.channels as u16,
            quality: self.quality as u16,
            chroma_scale: self.cs as u8,
            block_size: self.bs as u8,
            filter: filter(self.filter),
            encoder: encoder(self.encoder),
            intent: crate::things::intent(intent),
            metadata_size: meta,
        }
        .build()
        .expect("the library accepts these parameters");
        h.version = version;
        h.bit_depth = depth;
        h
    }
    pub fn json(&self) -> String {
        let (intent, meta, version, depth) = self.side();
        format!(
            "{{\"w\":{},\"h\":{},\"layers\":{},\"channels\":{},\"quality\":{},\"cs\":{},\"bs\":{},\"filter\":{},\"encoder\":{},\"intent\":{},\"meta\":{},\"version\":{},\"depth\":{}}}",
            self.w, self.h, self.layers, self.channels, self.quality, self.cs, self.bs, self.filter, self.encoder,
            crate::things::intent_code(crate::things::intent(intent)), u32p(meta), u32p(version), depth
        )
    }
    pub fn boost(&self) -> i64 {
        if self.quality == 1024 {
            1
        } else {
            8
        }
    }
    /// enough room for anything
    pub fn room(&self) -> usize {
        let mut blocks = 0;
        let mut step = 1;
        while step < 2 * self.w.max(self.h) {
            let e = (step << self.bs.min(24)).max(1);
            blocks += ((self.w + e - 1) / e) * ((self.h + e - 1) / e) * self.n();
            step *= 2;
        }
        // even shares: give every block of the finest level room for its largest cells
        self.total() * 40 + blocks * 160 + 4096
    }
}

pub fn prog_json(p: &[T]) -> String {
    list(
        &p.iter()
            .map(|t| {
                let f: Vec<String> = t.factors.iter().map(|(c, f)| format!("[{},{}]", c, f)).collect();
                format!(
                    "{{\"dest\":{},\"factors\":{},\"denom\":{},\"chroma\":{}}}",
                    t.dest,
                    list(&f),
                    t.denom,
                    t.chroma
                )
            })
            .collect::<Vec<_>>(),
    )
}

pub fn program(p: &[T]) -> ColorTransformProgram {
    let mut r = ColorTransformProgram::new();
    for t in p {
        let mut b = ChannelTransformBuilder::with_dest_channel(t.dest);
        for (c, f) in &t.factors {
            b.add_channel_factor(*c, *f as isize);
        }
        b.set_denominator(t.denom as isize);
        if t.chroma {
            b.set_chroma();
        }
        r.add_channel_transform(b.build());
    }
    r
}

pub fn from_program(p: &ColorTransformProgram) -> Vec<T> {
    p.iter()
        .map(|t| T {
            dest: t.dest_channel,
            factors: t.channel_factors.iter().map(|f| (f.src_channel, f.factor as i64)).collect(),
            denom: t.denominator as i64,
            chroma: t.is_chroma,
        })
        .collect()
}

/// flags the format derives: the last transform of a channel decides
pub fn chroma(p: &[T], n: usize) -> Vec<bool> {
    let mut v = vec![false; n];
    for t in p {
        v[t.dest] = t.chroma;
    }
    v
}

pub fn preset(r: &mut Rng) -> ColorTransformProgram {
    match r.below(4) {
        0 => ColorTransformProgram::rgb_to_yuv(),
        1 => ColorTransformProgram::bgr_to_a710(),
        2 => ColorTransformProgram::rgb_to_a710(),
        _ => ColorTransformProgram::yuv444_to_yuv444(),
    }
}

/// a reversible program over n channels: every destination once, no channel its own source
pub fn custom(r: &mut Rng, n: usize, wild: bool) -> Vec<T> {
    let mut dests: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        dests.swap(k, r.below(k + 1));
    }
    dests.truncate(r.below(n.min(6) + 1));
    dests
        .into_iter()
        .map(|dest| {
            let mut k = if n > 1 { r.below(4) } else { 0 };
            let mut m = if wild { 9 } else { 3 };
            if n > 1 && r.below(12) == 0 {
                k = r.pick(&[4usize, 5, 7, 8, 9, 12, 16, 17, 33]);
                m = 2;
            }
            let factors: Vec<(usize, i64)> = (0..k)
                .map(|_| {
                    let mut c = r.below(n);
                    if c == dest {
                        c = (c + 1) % n;
                    }
                    (c, r.range(-m, m))
                })
                .collect();
            let denom = match r.below(4) {
                0 => 1,
                1 => r.pick(&[2i64, 4, 8]),
                2 => r.range(1, 20),
                _ => r.pick(&[2i64, 3, 4, 5, 6, 7, 8, 16, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32767]),
            };
            T { dest, factors, denom, chroma: r.chance(2) }
        })
        .collect()
}

/// does the program keep every intermediate value inside the bound (raw: boosted planes)
pub fn stays_inside(p: &[T], raw: &[Vec<i64>], bound: i64) -> bool {
    let mut cur: Vec<Option<Vec<i64>>> = vec![None; raw.len()];
    let size = raw.first().map_or(0, |v| v.len());
    for t in p {
        let mut acc = cur[t.dest].clone().unwrap_or_else(|| vec![0; size]);
        for (c, f) in &t.factors {
            let src = cur[*c].as_ref().unwrap_or(&raw[*c]);
            for i in 0..size {
                let m = src[i] * f;
                acc[i] += m;
                if m.abs() > 32767 || acc[i].abs() > 32767 {
                    return false;
                }
            }
        }
        let div = |v: i64| match t.denom {
            2 => v >> 1,
            4 => v >> 2,
            8 => v >> 3,
            d => v / d,
        };
        for i in 0..size {
            acc[i] = div(acc[i]) + raw[t.dest][i];
            if acc[i].abs() > bound {
                return false;
            }
        }
        cur[t.dest] = Some(acc);
    }
    true
}

pub fn boosted_planes(p: &P, img: &[u8]) -> Vec<Vec<i64>> {
    let size = p.size();
    (0..p.n())
        .map(|c| {
            let layer = (c / p.channels) * size * p.channels + c % p.channels;
            (0..size).map(|i| i64::from(img[layer + i * p.channels]) * p.boost()).collect()
        })
        .collect()
}

/// a program that suits the image: no value leaves what the wavelets can take
pub fn fitting_program(r: &mut Rng, p: &P, img: &[u8]) -> Vec<T> {
    let raw = boosted_planes(p, img);
    for _ in 0..6 {
        let t = match r.below(5) {
            0 => vec![],
            1 | 2 if p.n() >= 3 => from_program(&preset(r)),
            _ => {
                let wild = r.chance(3);
                custom(r, p.n(), wild)
            }
        };
        if stays_inside(&t, &raw, 2040) {
            return t;
        }
    }
    vec![]
}

/// layers and channels
pub fn many(r: &mut Rng) -> (usize, usize) {
    r.pick(&[(1, 9), (3, 8), (17, 1), (1, 16), (2, 64), (65, 1), (1, 65), (2, 129), (256, 1), (257, 1), (1, 256), (1, 257), (1, 300), (16, 17), (1, 40), (1, 130)])
}

pub fn params(r: &mut Rng, max_dim: usize, max_total: usize) -> P {
    loop {
        let w = dim(r, max_dim);
        let h = dim(r, max_dim);
        let (layers, channels) = match r.below(8) {
            0 => (1, 1),
            1 => (1, 2),
            2 | 3 | 4 => (1, 3),
            5 => (1, 4),
            6 => (2 + r.below(2), 1 + r.below(3)),
            _ => (1 + r.below(3), 1 + r.below(5)),
        };
        let bs = match r.below(6) {
            0 | 1 => 2,
            2 => 3,
            3 => 4 + r.below(3),
            4 => 7,
            _ => r.pick(&[8usize, 12, 20, 28, 30]),
        };
        let quality = match r.below(5) {
            0 => 1024,
            1 => r.range(1, 1023) as usize,
            2 => r.range(900, 1023) as usize,
            3 => r.range(1, 60) as usize,
            _ => r.pick(&[1usize, 2, 8, 64, 128, 256, 511, 512, 513, 1000, 1023, 1024]),
        };
        let cs = r.pick(&[1usize, 1, 2, 3, 7, 8, 8, 16, 100, 255]);
        let mut p = P { w, h, layers, channels, quality, cs, bs, filter: r.below(2), encoder: r.below(3) };
        if r.below(50) == 0 {
            // many channels, more than 8 bits count
            let many = many(r);
            let side = |r: &mut Rng| 1 + r.below(3);
            p = P { w: side(r), h: side(r), layers: many.0, channels: many.1, ..p };
            if p.total() > max_total && p.n() <= max_total {
                p.w = 1 + r.below((max_total / p.n()).min(3));
                p.h = 1;
            }
        }
        if p.total() <= max_total {
            return p;
        }
    }
}

/// ["ok",n] or ["err",class] or ["panic"]
pub fn cres(r: &Option<Result<usize, CompressError>>) -> String {
    match r {
        None => "[\"panic\"]".into(),
        Some(Ok(n)) => format!("[\"ok\",{}]", n),
        Some(Err(CompressError::IOErr(_))) => "[\"err\",\"io\"]".into(),
        Some(Err(CompressError::Overflow)) => "[\"err\",\"overflow\"]".into(),
        Some(Err(CompressError::Malformed)) => "[\"err\",\"malformed\"]".into(),
    }
}
pub fn dres(r: &Option<Result<usize, DecompressError>>) -> String {
    match r {
        None => "[\"panic\"]".into(),
        Some(Ok(n)) => format!("[\"ok\",{}]", n),
        Some(Err(DecompressError::IOErr(_))) => "[\"err\",\"io\"]".into(),
        Some(Err(DecompressError::Underflow)) => "[\"err\",\"underflow\"]".into(),
        Some(Err(DecompressError::Malformed)) => "[\"err\",\"malformed\"]".into(),
        Some(Err(_)) => "[\"err\",\"other\"]".into(),
    }
}

pub struct Compressed {
    /// header, color program and payload
    pub file: Vec<u8>,
    /// where the color program and where the payload starts
    pub prog_at: usize,
    pub payload_at: usize,
}

pub fn compress_file(p: &P, prog: &[T], img: &[u8]) -> Option<Result<Compressed, CompressError>> {
    let mut buf = vec![0u8; p.room()];
    let header = p.header();
    let program = program(prog);
    let n = match guard(|| gfwx::compress_simple(img, &header, &program, &mut buf))? {
        Ok(n) => n,
        Err(e) => return Some(Err(e)),
    };
    buf.truncate(n);
    let mut rest: &[u8] = &buf[32.min(n)..];
    let before = rest.len();
    let mut flags = vec![false; p.n()];
    let _ = guard(|| ColorTransformProgram::decode(&mut rest, &mut flags));
    let payload_at = 32 + before - rest.len();
    Some(Ok(Compressed { file: buf, prog_at: 32, payload_at }))
}

/// the planes after the color transform
pub fn planes(p: &P, prog: &[T], img: &[u8]) -> Option<Vec<i16>> {
    let header = p.header();
    let mut aux = vec![0i16; p.total()];
    guard(|| {
        program(prog).transform_and_to_planar(img, &header, &mut aux);
    })?;
    Some(aux)
}

/// one block, encoded by the library
pub fn lib_block(p: &P, coefs: &mut [i16], bs: usize, s: usize, k: usize, q: i32, dc_level: bool, flags: &[bool]) -> Option<Vec<u8>> {
    let mut bytes = vec![];
    guard(|| {
        let c = gfwx::processing::image::Image::from_slice(coefs, (p.w, p.h), p.n())
            .into_chunks_mut(bs, s)
            .nth(k)
            .expect("a block");
        let dc = dc_level && c.x_range.0 == 0 && c.y_range.0 == 0;
        let ch = flags[c.channel];
        let mut w = gfwx::bits::BitsIOWriter::new(&mut bytes);
        gfwx::encode::encode(&c, &mut w, encoder(p.encoder), q, dc, ch)?;
        gfwx::bits::BitsWriter::flush_write_word(&mut w)
    })?
    .ok()?;
    Some(bytes)
}

/// a payload with these coefficients; pad says how many words to add behind a block
pub fn assemble(p: &P, flags: &[bool], coefs: &[i16], pad: &mut dyn FnMut(usize) -> usize) -> Option<Vec<u8>> {
    let mut c = coefs.to_vec();
    let header = p.header();
    let mut out = vec![];
    let mut s = 1;
    while 2 * s < p.w.max(p.h) {
        s *= 2;
    }
    let top = s;
    let mut number = 0;
    while s >= 1 {
        let bs = s << p.bs;
        let per = ((p.w + bs - 1) / bs) * ((p.h + bs - 1) / bs);
        let n = per * p.n();
        let mut blocks = vec![];
        for k in 0..n {
            let q = if flags[k / per] { header.get_chroma_quality() } else { p.quality as i32 };
            let mut b = lib_block(p, &mut c, bs, s, k, q, s == top, flags)?;
            for w in 0..pad(number) {
                b.extend_from_slice(&[(w * 7 + k) as u8, 0xA5, (number * 13) as u8, 0x5A]);
            }
            number += 1;
            blocks.push(b);
        }
        for b in &blocks {
            let n = (b.len() / 4) as u32;
            out.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8]);
        }
        for b in &blocks {
            out.extend_from_slice(b);
        }
        s /= 2;
    }
    Some(out)
}
