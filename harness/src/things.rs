//! What can be written and read: bit stream operations and headers.
use crate::*;
use gfwx::bits::{BitsReader, BitsWriter};
use gfwx::encode::{interleaved_code, interleaved_decode, signed_code, signed_decode, unsigned_code, unsigned_decode};
use gfwx::{Encoder, Filter, Header, Intent, Quantization};

#[derive(Clone)]
pub struct Op(pub char, pub i64, pub u32);

/// the 32 bits of a number as two halves
pub fn pair(x: i64) -> String {
    let u = x as u32;
    format!("[{},{}]", u >> 16, u & 0xffff)
}

pub fn ops_json(v: &[Op]) -> String {
    list(&v.iter().map(|o| format!("[\"{}\",{},{}]", o.0, pair(o.1), o.2)).collect::<Vec<_>>())
}

pub fn put(o: &Op, w: &mut impl BitsWriter) -> std::io::Result<()> {
    match o.0 {
        'u' => unsigned_code(o.1 as u32, w, o.2),
        'i' => interleaved_code(o.1 as i32, w, o.2),
        's' => signed_code(o.1 as i32, w, o.2),
        'b' => w.put_bits(o.1 as u32, o.2),
        _ => w.flush_write_word(),
    }
}
pub fn get(o: &Op, w: &mut impl BitsReader) -> std::io::Result<i64> {
    match o.0 {
        'u' => unsigned_decode(w, o.2).map(i64::from),
        'i' => interleaved_decode(w, o.2).map(i64::from),
        's' => signed_decode(w, o.2).map(i64::from),
        'b' => w.get_bits(o.2).map(i64::from),
        'z' => w.get_zeros(o.2).map(i64::from),
        _ => {
            w.flush_read_word();
            Ok(0)
        }
    }
}

/// bits: at most that many
pub fn number(r: &mut Rng, bits: u64) -> i64 {
    let m = 1i64 << r.below(bits as usize + 1);
    let top = (1i64 << bits) - 1;
    match r.below(7) {
        0 => r.range(0, 3),
        1 => m - 1,
        2 => m.min(top),
        3 => r.range(0, m - 1),
        4 => {
            // around the sum of some escapes, where the last part of the code is longest or shortest
            let mut pot = r.below(25) as u32;
            let mut x = 0i64;
            for _ in 0..r.below(24) {
                x += 12 << pot;
                pot = if pot < 20 { pot + 4 } else { 24 };
            }
            (x + r.range(-2, 2) + r.range(0, 1) * r.range(0, (12 << pot) - 1)).max(0).min(top)
        }
        _ => r.range(0, 40),
    }
}
pub fn any_op(r: &mut Rng, flush: bool) -> Op {
    let pot = if r.chance(4) { r.below(25) } else { r.below(6) } as u32;
    match r.below(if flush { 9 } else { 8 }) {
        0 | 1 => Op('u', number(r, 32), pot),
        2 | 3 => {
            let n = number(r, 30);
            Op('i', if r.chance(2) { n } else { -n }, pot)
        }
        4 | 5 => {
            let n = number(r, 31);
            Op('s', if r.chance(2) { n } else { -n }, pot)
        }
        6 | 7 => {
            let w = 1 + r.below(31) as u32;
            let x = match r.below(4) {
                0 => 0,
                1 => (1i64 << w) - 1,
                _ => r.range(0, (1i64 << w) - 1),
            };
            Op('b', x, w)
        }
        _ => Op('f', 0, 0),
    }
}

pub fn intent(k: usize) -> Intent {
    [Intent::Generic, Intent::RGB, Intent::RGBA, Intent::BGR, Intent::BGRA, Intent::YUV444][k]
}
pub fn intent_code(i: Intent) -> u8 {
    match i {
        Intent::Generic => 0,
        Intent::RGB => 7,
        Intent::RGBA => 8,
        Intent::BGR => 10,
        Intent::BGRA => 11,
        Intent::YUV444 => 12,
    }
}

#[derive(Clone)]
pub struct V {
    pub width: u32,
    pub height: u32,
    pub layers: u16,
    pub channels: u16,
    pub quality: u16,
    pub cs: u8,
    pub bs: u8,
    pub filter: usize,
    pub encoder: usize,
    pub intent: usize,
    pub meta: u32,
}

pub fn v_json(v: &V) -> String {
    format!(
        "{{\"width\":{},\"height\":{},\"layers\":{},\"channels\":{},\"quality\":{},\"chroma_scale\":{},\"block_size\":{},\"filter\":{},\"encoder\":{},\"intent\":{},\"metadata_size\":{}}}",
        u32p(v.width), u32p(v.height), v.layers, v.channels, v.quality, v.cs, v.bs, v.filter, v.encoder,
        intent_code(intent(v.intent)), u32p(v.meta)
    )
}
pub fn h_json(h: &Header) -> String {
    let f = match h.filter {
        Filter::Linear => 0,
        Filter::Cubic => 1,
    };
    let e = match h.encoder {
        Encoder::Turbo => 0,
        Encoder::Fast => 1,
        Encoder::Contextual => 2,
    };
    let q = match h.quantization {
        Quantization::Scalar => 0,
    };
    format!(
        "{{\"version\":{},\"width\":{},\"height\":{},\"layers\":{},\"channels\":{},\"bit_depth\":{},\"is_signed\":{},\"quality\":{},\"chroma_scale\":{},\"block_size\":{},\"filter\":{},\"quantization\":{},\"encoder\":{},\"intent\":{},\"metadata_size\":{}}}",
        u32p(h.version), u32p(h.width), u32p(h.height), h.layers, h.channels, h.bit_depth, h.is_signed, h.quality,
        h.chroma_scale, h.block_size, f, q, e, intent_code(h.intent), u32p(h.metadata_size)
    )
}

pub fn dim32(r: &mut Rng, ok: bool) -> u32 {
    match r.below(if ok { 6 } else { 10 }) {
        0 => 1 + r.below(10) as u32,
        1 => 1 + r.below(5000) as u32,
        2 => 1 << r.below(30),
        3 => (1u32 << (1 + r.below(29))) - 1,
        4 => (1u32 << r.below(29)) + 1,
        5 => 1 + r.below((1 << 30) - 1) as u32,
        6 => r.pick(&[0, 1 << 30, (1 << 30) + 1, (1 << 30) - 1]),
        7 => r.pick(&[1 << 31, !0, (1 << 31) - 1, (1 << 31) + 1]),
        8 => r.next() as u32,
        _ => 1,
    }
}
pub fn any_v(r: &mut Rng, ok: bool) -> V {
    loop {
        let count = |r: &mut Rng| match r.below(if ok { 4 } else { 6 }) {
            0 => 1,
            1 => 1 + r.below(5) as u16,
            2 => 1 + r.below(65535) as u16,
            3 => r.pick(&[255u16, 256, 257, 65535, 65534]),
            4 => 0,
            _ => 65535,
        };
        let v = V {
            width: dim32(r, ok),
            height: dim32(r, ok),
            layers: count(r),
            channels: count(r),
            quality: if ok {
                r.pick(&[1u16, 2, 512, 1023, 1024, 0]).max(if r.chance(2) { 1 } else { 1 + r.below(1024) as u16 })
            } else {
                r.pick(&[0u16, 1, 1024, 1025, 1026, 65535, 500, 2048])
            },
            cs: if ok { r.pick(&[1u8, 2, 8, 127, 128, 254, 255, 17]) } else { r.pick(&[0u8, 1, 8, 255]) },
            bs: if ok { 2 + r.below(29) as u8 } else { r.pick(&[0u8, 1, 2, 7, 29, 30, 31, 32, 33, 255]) },
            filter: r.below(2),
            encoder: r.below(3),
            intent: r.below(6),
            meta: if ok { 4 * (r.next() as u32 >> (2 + r.below(30))) } else { r.next() as u32 >> r.below(32) },
        };
        if ok {
            let total = u128::from(v.width) * u128::from(v.height) * u128::from(v.layers) * u128::from(v.channels);
            if total >= 1 << 64 {
                continue;
            }
        }
        return v;
    }
}

