//! W01: lifting; W02: quantization.
use gvharness::codec::*;
use gvharness::*;

fn rows<'a>(v: &'a mut [i16], w: usize) -> Vec<&'a mut [i16]> {
    v.chunks_mut(w).collect()
}

fn ok<T>(r: &Option<T>) -> &'static str {
    if r.is_some() {
        "[\"ok\"]"
    } else {
        "[\"panic\"]"
    }
}

fn size(r: &mut Rng, turn: usize) -> (usize, usize) {
    match turn % 8 {
        0 => (1, dim(r, 300)),
        1 => (dim(r, 300), 1),
        2 => {
            // around powers of two
            let a = (1usize << (1 + r.below(6))) as i64 + r.range(-1, 1);
            let b = (1usize << (1 + r.below(6))) as i64 + r.range(-1, 1);
            (a.max(1) as usize, b.max(1) as usize)
        }
        3 => (dim(r, 9), dim(r, 9)),
        4 => (1 + r.below(4), dim(r, 150)),
        _ => (dim(r, 40), dim(r, 40)),
    }
}

fn values(r: &mut Rng, w: usize, h: usize, bound: i64) -> Vec<i16> {
    let n = w * h;
    match r.below(6) {
        0 => (0..n).map(|_| r.range(-bound, bound) as i16).collect(),
        1 => (0..n).map(|_| r.pick(&[-bound, bound]) as i16).collect(),
        2 => (0..n).map(|_| r.pick(&[-bound, 0, 0, 0, 1, -1, bound]) as i16).collect(),
        3 => samples(r, w, h, 1).into_iter().map(|x| (i64::from(x) * bound / 255) as i16).collect(),
        4 => samples(r, w, h, 1).into_iter().map(|x| (i64::from(x) * bound / 128 - bound).max(-bound).min(bound) as i16).collect(),
        _ => (0..n).map(|_| r.range(-3, 3).max(-bound).min(bound) as i16).collect(),
    }
}

/// large values most of whose differences are small
fn large(r: &mut Rng, w: usize, h: usize, bound: i64) -> Vec<i16> {
    if r.chance(8) {
        return values(r, w, h, bound);
    }
    let sign = r.pick(&[1i64, 1, -1]);
    let (lo, hi) = match r.below(4) {
        0 => (bound - bound / 8, bound),
        1 => (0, bound),
        2 => (bound / 2, bound),
        _ => (-bound / 2, bound / 2),
    };
    match r.below(5) {
        0 => (0..w * h).map(|_| (sign * r.range(lo, hi)) as i16).collect(),
        1 => samples(r, w, h, 1).into_iter().map(|x| (sign * (lo + i64::from(x) * (hi - lo) / 255)) as i16).collect(),
        2 => {
            let every = 1 + r.below(9);
            (0..w * h).map(|k| (sign * if k % every == 0 { lo } else { hi }) as i16).collect()
        }
        3 => {
            // columns and rows of zeros between large ones
            let (a, b) = (1 + r.below(2), 1 + r.below(2));
            (0..w * h).map(|k| if (k % w) % 2 < a && (k / w) % 2 < b { (sign * r.range(lo, hi)) as i16 } else { 0 }).collect()
        }
        _ => {
            let (dx, dy) = (r.range(-900, 900), r.range(-900, 900));
            let mut v: Vec<i64> = (0..w * h).map(|k| lo + (k % w) as i64 * dx + (k / w) as i64 * dy + r.range(0, 60)).collect();
            for x in &mut v {
                *x = (*x).max(-bound).min(bound);
            }
            v.into_iter().map(|x| (sign * x) as i16).collect()
        }
    }
}

fn lift(f: usize, v: &mut [i16], w: usize) -> Option<()> {
    let mut r = rows(v, w);
    guard(|| if f == 0 { gfwx::lifting::lift_linear(&mut r) } else { gfwx::lifting::lift_cubic(&mut r) })
}
fn unlift(f: usize, v: &mut [i16], w: usize) -> Option<()> {
    let mut r = rows(v, w);
    guard(|| if f == 0 { gfwx::lifting::unlift_linear(&mut r) } else { gfwx::lifting::unlift_cubic(&mut r) })
}

fn put(o: &mut Out, w: usize, h: usize, f: usize, img: &[i16]) {
    o.session((w * h) as u64 * 3 + 50);
    o.ev(&format!("{{\"ev\":\"put\",\"w\":{},\"h\":{},\"f\":{},\"img\":{}}}", w, h, f, ints(img)));
}

fn lift_session(r: &mut Rng, o: &mut Out, w: usize, h: usize, f: usize) {
    // color programs make channels with large values; nothing leaves 16 bits in most of the smooth ones
    let bound = r.pick(&[255i64, 2040, 2040, 1000, 30, 8000, 16000, 21800, 32767]);
    let mut v = if bound > 4000 { large(r, w, h, bound) } else { values(r, w, h, bound) };
    o.mark(&format!("lift {}x{} filter {}", w, h, f));
    put(o, w, h, f, &v);
    let a = lift(f, &mut v, w);
    o.ev(&format!("{{\"ev\":\"lift\",\"res\":{},\"img\":{}}}", ok(&a), ints(&v)));
    let a = unlift(f, &mut v, w);
    o.ev(&format!("{{\"ev\":\"unlift\",\"res\":{},\"img\":{}}}", ok(&a), ints(&v)));
}
fn unlift_session(r: &mut Rng, o: &mut Out, w: usize, h: usize, f: usize) {
    let bound = r.pick(&[3i64, 20, 100, 400, 1500]);
    let mut v = values(r, w, h, bound);
    if bound <= 400 && r.chance(2) {
        v[0] = r.range(-32700, 32700) as i16;
    }
    o.mark(&format!("unlift {}x{} filter {}", w, h, f));
    put(o, w, h, f, &v);
    let a = unlift(f, &mut v, w);
    o.ev(&format!("{{\"ev\":\"unlift\",\"res\":{},\"img\":{}}}", ok(&a), ints(&v)));
}

fn quant_session(r: &mut Rng, o: &mut Out, w: usize, h: usize) {
    let bound = r.pick(&[255i64, 2040, 9000, 32000, 32767]);
    let v = values(r, w, h, bound);
    let hi = r.pick(&[1024i64, 8192, 8192, 8192]);
    let mut q = match r.below(4) {
        0 => r.range(1, 1024),
        1 => r.pick(&[1i64, 2, 3, 64, 511, 512, 513, 1000, 1023, 1024]),
        2 => r.range(1, 30),
        _ => r.range(900, 1024),
    };
    let lo = if r.chance(5) { r.pick(&[1i64, 2, 16, 100, 1024]) } else { 0 };
    // dequantized values must not overflow
    if bound > 20000 && hi / q > 60 {
        q = hi / 60 + 1;
    }
    o.mark(&format!("quantize {}x{} q {} lo {} hi {}", w, h, q, lo, hi));
    let mut a = v.clone();
    let mut b = v.clone();
    let res = guard(|| gfwx::quant::quantize(&mut rows(&mut a, w), q as i32, lo as i32, hi as i32));
    b.copy_from_slice(&a);
    let res2 = guard(|| gfwx::quant::dequantize(&mut rows(&mut b, w), q as i32, lo as i32, hi as i32));
    put(o, w, h, 0, &v);
    o.ev(&format!("{{\"ev\":\"quantize\",\"q\":{},\"lo\":{},\"hi\":{},\"res\":{},\"img\":{}}}", q, lo, hi, ok(&res), ints(&a)));
    o.ev(&format!("{{\"ev\":\"dequantize\",\"q\":{},\"lo\":{},\"hi\":{},\"res\":{},\"img\":{}}}", q, lo, hi, ok(&res2), ints(&b)));
    // coefficients of a reduced image are dequantized with a higher quality
    let d = r.below(5);
    let q2 = q << d;
    let limit = (32767 * q / hi).max(1).min(32767);
    let c = values(r, w, h, limit.min(2000));
    let mut b = c.clone();
    let res = guard(|| gfwx::quant::dequantize(&mut rows(&mut b, w), q2 as i32, lo as i32, hi as i32));
    put(o, w, h, 0, &c);
    o.ev(&format!("{{\"ev\":\"dequantize\",\"q\":{},\"lo\":{},\"hi\":{},\"res\":{},\"img\":{}}}", q2, lo, hi, ok(&res), ints(&b)));
}

/// channels of a million cells, of which a few are not zero: most of the levels there are
fn sparse_session(r: &mut Rng, o: &mut Out) {
    let (w, h) = match r.below(4) {
        0 => (1 + r.below(600), 2000 + r.below(9000)),
        1 => (2000 + r.below(9000), 1 + r.below(600)),
        _ => (500 + r.below(1700), 500 + r.below(1700)),
    };
    let mut q = r.pick(&[1i64, 1, 2, 3, 5, 8, 11, 16, 30, 100, 700]);
    let (lo, hi) = (r.pick(&[0i64, 0, 0, 1, 4, 100]), r.pick(&[1024i64, 8192, 8192]));
    let mut cells: Vec<(usize, usize, i16)> = vec![(0, 0, 1234)];
    let mut coefs = vec![(0, 0, -321i16)];
    if r.chance(5) {
        q = r.range(1, 1024);
    }
    for _ in 0..120 {
        let s = 1usize << r.below(13);
        let x = (r.below(w) / s * s).min(w - 1);
        let y = (r.below(h) / s * s).min(h - 1);
        if cells.iter().all(|c| (c.0, c.1) != (x, y)) {
            cells.push((x, y, r.pick(&[2040i64, 30000, 8192, 300]) as i16 - r.range(0, 300) as i16));
            if r.chance(2) {
                let c = cells.last_mut().unwrap();
                c.2 = -c.2;
            }
            coefs.push((x, y, r.range(-3, 3) as i16));
        }
    }
    o.session(400);
    o.mark(&format!("sparse {}x{} q {} lo {} hi {}", w, h, q, lo, hi));
    for (name, list) in vec![("quantized", &cells), ("dequantized", &coefs)] {
        let mut v = vec![0i16; w * h];
        for c in list.iter() {
            v[c.1 * w + c.0] = c.2;
        }
        let res = if name == "quantized" {
            guard(|| gfwx::quant::quantize(&mut rows(&mut v, w), q as i32, lo as i32, hi as i32))
        } else {
            guard(|| gfwx::quant::dequantize(&mut rows(&mut v, w), q as i32, lo as i32, hi as i32))
        };
        let mut shown = vec![];
        for c in list.iter() {
            shown.push(format!("[{},{},{},{}]", c.0, c.1, c.2, v[c.1 * w + c.0]));
            v[c.1 * w + c.0] = 0;
        }
        o.ev(&format!(
            "{{\"ev\":\"sparse\",\"what\":\"{}\",\"w\":{},\"h\":{},\"q\":{},\"lo\":{},\"hi\":{},\"res\":{},\"cells\":[{}],\"others\":{}}}",
            name, w, h, q, lo, hi, ok(&res), shown.join(","), v.iter().filter(|x| **x != 0).count()
        ));
    }
}

fn channels_session(r: &mut Rng, o: &mut Out, max: usize, total: usize) {
    let p = params(r, max, total);
    let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
    let bound = r.pick(&[255i64, 2040]);
    let mut v = vec![];
    for _ in 0..p.n() {
        v.extend(values(r, p.w, p.h, bound));
    }
    let header = p.header();
    o.mark(&format!("channels {}", p.json()));
    let mut c = v.clone();
    let mut buf = vec![0u8; p.room()];
    let n = match guard(|| gfwx::compress_aux_data(&mut c, &header, &flags, &mut buf)) {
        Some(Ok(n)) => n,
        x => {
            o.session(1);
            o.ev(&format!("{{\"ev\":\"failed\",\"res\":{}}}", cres(&x)));
            return;
        }
    };
    o.session(p.total() as u64 * 4 + 50);
    o.ev(&format!("{{\"ev\":\"channels\",\"p\":{},\"chroma\":{},\"aux\":{}}}", p.json(), bools(&flags), ints(&v)));
    o.ev(&format!("{{\"ev\":\"forward\",\"aux\":{}}}", ints(&c)));
    let mut back = vec![0i16; p.total()];
    let res = guard(|| gfwx::decompress_aux_data(&buf[..n], &header, &flags, 0, false, &mut back));
    o.ev(&format!("{{\"ev\":\"backward\",\"res\":{},\"aux\":{}}}", dres(&res), ints(&back)));
}

fn main() {
    quiet_panics();
    let a = args();
    let mut rng = Rng::new(a.seed ^ 0x1234);
    let mut o = Out::new(&a.out, a.shards);
    let r = &mut rng;
    let scale = if a.thorough { 20 } else { 1 };
    if a.topic == "lift" {
        // every small size
        let all = if a.thorough { 20 } else { 10 };
        for w in 1..=all {
            for h in 1..=all {
                for f in 0..2 {
                    lift_session(r, &mut o, w, h, f);
                    unlift_session(r, &mut o, w, h, f);
                }
            }
        }
        let mut spent = 0;
        let mut turn = 0;
        while spent < 160_000 * scale {
            turn += 1;
            let (w, h) = size(r, turn);
            spent += w * h + 50;
            let f = turn / 8 % 2;
            lift_session(r, &mut o, w, h, f);
            unlift_session(r, &mut o, w, h, f);
        }
        // beyond the sizes that switch multithreading on
        for k in 0..4 * (if a.thorough { 6 } else { 1 }) {
            let f = k % 2;
            let cells = if f == 0 { 128 * 128 } else { 64 * 64 };
            let w = match k % 4 {
                0 => 60 + r.below(200),
                1 => 1 + r.below(9),
                2 => 2000 + r.below(4000),
                _ => 50 + r.below(50),
            };
            let h = cells / w + 1 + r.below(3);
            lift_session(r, &mut o, w, h, f);
            if a.thorough {
                unlift_session(r, &mut o, w, h, f);
            }
        }
        // more than 16 bits count
        for k in 0..4 {
            let long = 65_537 + r.below(3000);
            let (w, h) = if k < 2 { (long, 1) } else { (1, long) };
            lift_session(r, &mut o, w, h, k % 2);
        }
    } else {
        let all = if a.thorough { 18 } else { 9 };
        for w in 1..=all {
            for h in 1..=all {
                quant_session(r, &mut o, w, h);
            }
        }
        let mut spent = 0;
        let mut turn = 0;
        while spent < 300_000 * scale {
            turn += 1;
            let (w, h) = size(r, turn);
            spent += w * h + 50;
            quant_session(r, &mut o, w, h);
        }
        for _ in 0..2 * (if a.thorough { 6 } else { 1 }) {
            let w = 50 + r.below(150);
            let h = 96 * 96 / w + 1 + r.below(4);
            quant_session(r, &mut o, w, h);
        }
        for k in 0..2 {
            let long = 65_537 + r.below(3000);
            quant_session(r, &mut o, if k == 0 { long } else { 1 }, if k == 0 { 1 } else { long });
        }
        for _ in 0..60 * (if a.thorough { 8 } else { 1 }) {
            sparse_session(r, &mut o);
        }
        for _ in 0..120 * scale {
            channels_session(r, &mut o, 24, 400);
        }
        channels_session(r, &mut o, 120, 12_000);
    }
    println!("events {}", o.events);
    o.finish();
}
