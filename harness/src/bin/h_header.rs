//! H01, H02: the file header.
use gfwx::{Header, HeaderBuilder};
use gvharness::codec::{encoder, filter};
use gvharness::things::*;
use gvharness::*;
use std::io::{self, Read};

fn build(v: &V) -> Option<Result<Header, gfwx::errors::HeaderErr>> {
    guard(|| {
        HeaderBuilder {
            width: v.width,
            height: v.height,
            layers: v.layers,
            channels: v.channels,
            quality: v.quality,
            chroma_scale: v.cs,
            block_size: v.bs,
            filter: filter(v.filter),
            encoder: encoder(v.encoder),
            intent: intent(v.intent),
            metadata_size: v.meta,
        }
        .build()
    })
}
fn herr(e: &gfwx::errors::HeaderErr) -> &'static str {
    match e {
        gfwx::errors::HeaderErr::IOErr(_) => "[\"err\",\"io\"]",
        gfwx::errors::HeaderErr::WrongMagic => "[\"err\",\"magic\"]",
        gfwx::errors::HeaderErr::WrongValue(_) => "[\"err\",\"value\"]",
    }
}

/// gives few bytes at a time
struct Drip<'a>(&'a [u8], usize);
impl Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

struct S {
    cur: Option<Header>,
}

impl S {
    fn build(&mut self, o: &mut Out, v: &V) {
        let b = build(v);
        let (res, h) = match &b {
            None => ("[\"panic\"]", "{}".to_string()),
            Some(Err(e)) => (herr(e), "{}".to_string()),
            Some(Ok(h)) => ("[\"ok\"]", h_json(h)),
        };
        o.ev(&format!("{{\"ev\":\"build\",\"v\":{},\"res\":{},\"h\":{}}}", v_json(v), res, h));
        if let Some(Ok(h)) = b {
            self.cur = Some(h);
        }
    }
    fn write(&mut self, r: &mut Rng, o: &mut Out, room: usize) -> Vec<u8> {
        let fill = r.below(256) as u8;
        let mut sink = vec![fill; room];
        if let Some(h) = &self.cur {
            let res = {
                let mut s: &mut [u8] = &mut sink;
                match guard(|| h.encode(&mut s)) {
                    None => "[\"panic\"]",
                    Some(Err(_)) => "[\"err\",\"io\"]",
                    Some(Ok(())) => "[\"ok\"]",
                }
            };
            o.ev(&format!("{{\"ev\":\"write\",\"room\":{},\"fill\":{},\"res\":{},\"sink\":{}}}", room, fill, res, ints(&sink)));
        }
        sink
    }
    fn read(&mut self, r: &mut Rng, o: &mut Out, bytes: &[u8]) {
        let (d, left) = if r.chance(3) {
            let mut src = Drip(bytes, 1 + r.below(5));
            (guard(|| Header::decode(&mut src)), src.0.len())
        } else {
            let mut src = bytes;
            (guard(|| Header::decode(&mut src)), src.len())
        };
        let (res, h, same) = match &d {
            None => ("[\"panic\"]", "{}".to_string(), false),
            Some(Err(e)) => (herr(e), "{}".to_string(), false),
            Some(Ok(h)) => ("[\"ok\"]", h_json(h), self.cur.as_ref() == Some(h)),
        };
        o.ev(&format!(
            "{{\"ev\":\"read\",\"bytes\":{},\"res\":{},\"used\":{},\"h\":{},\"same\":{}}}",
            ints(bytes), res, bytes.len() - left, h, same
        ));
        if let Some(Ok(h)) = d {
            self.cur = Some(h);
        }
    }
    fn derive(&mut self, o: &mut Out, d: usize) {
        let h = match &self.cur {
            Some(h) => h,
            None => return,
        };
        let dig = |x: usize| {
            let x = x as u64;
            format!("[{},{},{},{}]", x & 0xffff, (x >> 16) & 0xffff, (x >> 32) & 0xffff, x >> 48)
        };
        let q = guard(|| {
            format!(
                "{{\"dw\":{},\"dh\":{},\"channel\":{},\"image\":{},\"dchannel\":{},\"dimage\":{},\"buffer\":{},\"boost\":{},\"cq\":{}}}",
                u32p(h.get_downsampled_width(d) as u32),
                u32p(h.get_downsampled_height(d) as u32),
                dig(h.get_channel_size()),
                dig(h.get_image_size()),
                dig(h.get_downsampled_channel_size(d)),
                dig(h.get_downsampled_image_size(d)),
                dig(h.get_decompress_buffer_size(d)),
                h.get_boost(),
                h.get_chroma_quality()
            )
        });
        o.ev(&format!("{{\"ev\":\"derive\",\"d\":{},\"q\":{}}}", d, q.unwrap_or_else(|| "\"panic\"".into())));
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let r = &mut r;
    let mut o = Out::new(&a.out, a.shards);
    let o = &mut o;
    match a.topic.as_str() {
        "layout" => {
            let n = if a.thorough { 20000 } else { 1500 };
            for k in 0..n {
                o.session(1);
                let mut s = S { cur: None };
                s.build(o, &any_v(r, true));
                let room = if k % 5 == 0 { r.below(33) } else { 32 + r.below(6) };
                s.write(r, o, room);
                let room = 32 + r.below(8);
                let mut bytes = s.write(r, o, room);
                if r.chance(3) && bytes.len() >= 32 {
                    // fields a builder cannot set
                    for k in 4..8 {
                        bytes[k] = r.below(256) as u8;
                    }
                    bytes[23] = r.below(8) as u8;
                }
                s.read(r, o, &bytes);
                for _ in 0..2 {
                    let d = match r.below(4) {
                        0 => 0,
                        1 => r.below(32),
                        _ => r.below(6),
                    };
                    s.derive(o, d);
                }
                // and again from what was read
                let again = s.write(r, o, 32);
                s.read(r, o, &again);
            }
            // every quality, chroma scale and block size
            for q in 1..=1024u16 {
                let mut v = any_v(r, true);
                v.quality = q;
                v.cs = (1 + (usize::from(q) * 7) % 255) as u8;
                v.bs = (2 + usize::from(q) % 29) as u8;
                o.session(1);
                let mut s = S { cur: None };
                s.build(o, &v);
                let bytes = s.write(r, o, 32);
                s.read(r, o, &bytes);
                s.derive(o, 1);
            }
        }
        "accept" => {
            let n = if a.thorough { 30000 } else { 2500 };
            o.session(1);
            o.ev(&format!(
                "{{\"ev\":\"limits\",\"block_default\":{},\"block_max\":{},\"quality_max\":{}}}",
                gfwx::BLOCK_DEFAULT, gfwx::BLOCK_MAX, gfwx::QUALITY_MAX
            ));
            for _ in 0..n {
                o.session(1);
                let mut s = S { cur: None };
                // one field out of line, or several
                let good = any_v(r, true);
                let bad = any_v(r, false);
                let mut v = good.clone();
                for _ in 0..1 + r.below(2) {
                    match r.below(8) {
                        0 => v.width = bad.width,
                        1 => v.height = bad.height,
                        2 => v.layers = bad.layers,
                        3 => v.channels = bad.channels,
                        4 => v.quality = bad.quality,
                        5 => v.cs = bad.cs,
                        6 => v.bs = bad.bs,
                        _ => v.meta = bad.meta,
                    }
                }
                s.build(o, &v);
                let bytes = s.write(r, o, 32);
                if s.cur.is_some() {
                    s.read(r, o, &bytes);
                }
                if r.chance(4) {
                    // around 2^64 samples
                    let mut v = good;
                    v.width = (1 << 30) - 1 - r.below(3) as u32;
                    v.height = r.pick(&[1u32 << 29, (1 << 30) - 1, 1 << 28, 1 << 20, 65536]);
                    v.layers = r.pick(&[1u16, 16, 17, 15, 256, 65535, 32768]);
                    v.channels = r.pick(&[1u16, 2, 16, 32767, 65535, 4]);
                    s.build(o, &v);
                }
            }
            // bytes: every value of every byte of good headers, cut off everywhere, noise
            let rounds = if a.thorough { 12 } else { 1 };
            for _ in 0..rounds {
                let mut s = S { cur: None };
                o.session(1);
                let mut v = any_v(r, true);
                v.width = 1 + r.below(9) as u32;
                v.height = 1 + r.below(9) as u32;
                v.layers = 1 + r.below(3) as u16;
                v.channels = 1 + r.below(3) as u16;
                v.meta = 4 * r.below(9) as u32;
                s.build(o, &v);
                let room = 32 + r.below(3);
                let base = s.write(r, o, room);
                for at in 0..32 {
                    o.session(10);
                    for value in 0..256 {
                        let mut b = base.clone();
                        b[at] = value as u8;
                        let mut t = S { cur: None };
                        t.build_silent(&v, o);
                        t.read(r, o, &b);
                    }
                }
                for cut in 0..32 {
                    o.session(1);
                    let mut b = base.clone();
                    b.truncate(cut);
                    let mut t = S { cur: None };
                    t.build_silent(&v, o);
                    t.read(r, o, &b);
                    if cut > 0 {
                        b[r.below(cut)] ^= 1 << r.below(8);
                        t.cur = None;
                        t.build_silent(&v, o);
                        t.read(r, o, &b);
                    }
                }
            }
            let n = if a.thorough { 40000 } else { 3000 };
            for _ in 0..n {
                o.session(1);
                let mut s = S { cur: None };
                let v = any_v(r, true);
                s.build(o, &v);
                let mut b = s.write(r, o, 32);
                for _ in 0..1 + r.below(4) {
                    let at = if r.chance(6) { r.below(32) } else { 8 + r.below(24) };
                    b[at] = match r.below(4) {
                        0 => 0,
                        1 => 255,
                        2 => b[at] ^ (1 << r.below(8)),
                        _ => r.below(256) as u8,
                    };
                }
                s.read(r, o, &b);
            }
        }
        t => panic!("no topic {}", t),
    }
    println!("events {}", o.events);
    let o = std::mem::replace(o, Out::new(&a.out, 0));
    o.finish();
}

impl S {
    /// a known header to compare with, shown like any other
    fn build_silent(&mut self, v: &V, o: &mut Out) {
        self.build(o, v);
    }
}
