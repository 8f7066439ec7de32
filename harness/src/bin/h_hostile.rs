//! C08: arbitrary bytes, damaged files, buffers that are too small.
use gfwx::{ColorTransformProgram, Header};
use gvharness::codec::*;
use gvharness::*;

fn io_res<T, E>(r: &Option<Result<T, E>>) -> &'static str {
    match r {
        None => "[\"panic\"]",
        Some(Ok(_)) => "[\"ok\"]",
        Some(Err(_)) => "[\"err\"]",
    }
}

/// 24 zero bits in a row could mean numbers beyond what the specification counts with
fn tame(words: &[u8]) -> bool {
    let mut run = 0;
    for w in words.chunks(4) {
        for &b in w.iter().rev() {
            for k in (0..8).rev() {
                if b >> k & 1 == 0 {
                    run += 1;
                    if run >= 180 {
                        return false;
                    }
                } else {
                    run = 0;
                }
            }
        }
    }
    true
}

fn noise(r: &mut Rng, n: usize) -> Vec<u8> {
    let kind = r.below(5);
    (0..n)
        .map(|_| match kind {
            0 => r.below(256) as u8,
            1 => (r.below(256) & r.below(256)) as u8,
            2 => (r.below(256) | r.below(256)) as u8,
            3 => r.pick(&[0u8, 0, 0, 1, 255]),
            _ => 0,
        })
        .collect()
}

fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(8) {
        0 => {
            // flip bits
            for _ in 0..1 + r.below(4) {
                if !b.is_empty() {
                    let k = r.below(b.len());
                    b[k] ^= 1 << r.below(8);
                }
            }
        }
        1 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        2 => {
            // a stretch of noise
            let k = r.below(b.len() + 1);
            let n = r.below(20).min(b.len() - k);
            let z = noise(r, n);
            b[k..k + n].copy_from_slice(&z);
        }
        3 => {
            // lose a stretch
            let k = r.below(b.len() + 1);
            let n = r.below(12).min(b.len() - k);
            b.drain(k..k + n);
        }
        4 => {
            // insert
            let k = r.below(b.len() + 1);
            let m = r.below(12);
            let z = noise(r, m);
            for (j, x) in z.into_iter().enumerate() {
                b.insert(k + j, x);
            }
        }
        5 => {
            // extreme words
            if b.len() >= 4 {
                let k = r.below(b.len() / 4) * 4;
                let w = r.pick(&[0u32, u32::max_value(), 0x8000_0000, 0x4000_0000, 0x3fff_ffff, 1, 2, 0xffff]);
                for j in 0..4 {
                    b[k + j] = (w >> (8 * j)) as u8;
                }
            }
        }
        6 => {
            for x in b.iter_mut() {
                if r.chance(30) {
                    *x = r.below(256) as u8;
                }
            }
        }
        _ => {
            let n = r.below(40);
            let z = noise(r, n);
            b.extend(z);
        }
    }
}

const ZONE: usize = 4096;

struct Request<'a> {
    p: &'a P,
    header: &'a Header,
    d: usize,
    test: bool,
    room: usize,
    flags: &'a [bool],
}

/// what surrounds the room, and what is in it behind the image, stays as it was
fn zoned<E: Copy + PartialEq>(room: usize, wanted: usize, fill: E, mark: E, f: impl FnOnce(&mut [E])) -> bool {
    let mut v = vec![mark; room + 2 * ZONE];
    for x in &mut v[ZONE..ZONE + room] {
        *x = fill;
    }
    f(&mut v[ZONE..ZONE + room]);
    v[..ZONE].iter().all(|x| *x == mark)
        && v[ZONE + room..].iter().all(|x| *x == mark)
        && v[ZONE + wanted.min(room)..ZONE + room].iter().all(|x| *x == fill)
}

fn data(r: &mut Rng, o: &mut Out, q: &Request, entry: usize, bytes: &[u8], file: &[u8], note: &str) {
    let passed = if entry == 2 { -1 } else { q.flags.len() as i64 };
    o.session(1);
    let shown = if note.is_empty() { ints(if entry == 2 { file } else { bytes }) } else { note.to_string() };
    o.mark(&format!("hostile entry {} {} d {} test {} room {} flags {} bytes {}", entry, q.p.json(), q.d, q.test, q.room, bools(q.flags), shown));
    o.ev(&format!("{{\"ev\":\"request\",\"p\":{},\"d\":{},\"room\":{},\"flags\":{},\"entry\":{},\"len\":{},\"test\":{}}}", q.p.json(), q.d, q.room, passed, entry, bytes.len(), q.test));
    let wanted = q.header.get_downsampled_image_size(q.d);
    let mut res = None;
    let intact = match entry {
        0 => zoned(q.room, wanted, 0i16, -21555, |b| {
            res = guard(|| gfwx::compress::decompress_image_data(b, q.header, bytes, q.d, q.test, q.flags));
        }),
        1 => zoned(q.room, wanted, r.below(2000) as i16, 21555, |b| {
            res = guard(|| gfwx::decompress_aux_data(bytes, q.header, q.flags, q.d, q.test, b));
        }),
        _ => zoned(q.room, wanted, r.below(256) as u8, 0x3c, |b| {
            res = guard(|| gfwx::decompress_simple(file, q.header, q.d, q.test, b));
        }),
    };
    o.ev(&format!("{{\"ev\":\"data\",\"res\":{},\"intact\":{}}}", dres(&res), intact));
}

fn main() {
    quiet_panics();
    let a = args();
    let mut rng = Rng::new(a.seed ^ 0x77);
    let mut out = Out::new(&a.out, a.shards);
    let r = &mut rng;
    let o = &mut out;
    let scale = if a.thorough { 12 } else { 1 };

    // headers
    let valid = |r: &mut Rng| {
        let p = params(r, 40, 2000);
        let mut b = vec![];
        p.header().encode(&mut b).unwrap();
        (p, b)
    };
    for turn in 0..6000 * scale {
        let mut b = match turn % 4 {
            0 => {
                let n = r.below(40);
                noise(r, n)
            }
            _ => valid(r).1,
        };
        if turn % 4 == 1 {
            let n = 32 - 4;
            let z = noise(r, n);
            b[4..32].copy_from_slice(&z);
        }
        for _ in 0..r.below(3) {
            damage(r, &mut b);
        }
        if turn % 7 == 3 && b.len() >= 4 {
            b[0..4].copy_from_slice(b"GFWX");
        }
        b.truncate(60);
        o.session(1);
        o.mark(&format!("header {}", ints(&b)));
        o.ev(&format!("{{\"ev\":\"request\",\"bytes\":{}}}", ints(&b)));
        let mut s: &[u8] = &b;
        let res = guard(|| Header::decode(&mut s));
        o.ev(&format!("{{\"ev\":\"header\",\"res\":{}}}", io_res(&res)));
        // what was accepted is also written, derived from and, if it is not too large, decoded with
        if let Some(Ok(h)) = res {
            let cells = u128::from(h.width) * u128::from(h.height) * u128::from(h.layers) * u128::from(h.channels);
            if cells <= 20_000 && h.width < 2000 && h.height < 2000 {
                let p = P {
                    w: h.width as usize,
                    h: h.height as usize,
                    layers: h.layers as usize,
                    channels: h.channels as usize,
                    quality: h.quality as usize,
                    cs: h.chroma_scale as usize,
                    bs: h.block_size as usize,
                    filter: h.filter.clone() as usize,
                    encoder: h.encoder.clone() as usize,
                };
                let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
                let n = r.below(400);
                let z = noise(r, n);
                let d = r.below(4);
                let room = h.get_downsampled_image_size(d);
                let q = Request { p: &p, header: &h, d, test: false, room, flags: &flags };
                let entry = r.below(3);
                data(r, o, &q, entry, &z, &z, "");
            }
        }
    }

    // color programs
    for turn in 0..5000 * scale {
        let n = r.pick(&[1usize, 2, 3, 3, 3, 4, 6, 64, 3000]);
        let mut b = vec![];
        match turn % 4 {
            0 => {
                let m = r.below(30);
                b = noise(r, m);
            }
            1 => {
                let _ = guard(|| preset(r).encode(3, &mut b));
            }
            _ => {
                let t = custom(r, n.min(8), true);
                let _ = guard(|| program(&t).encode(n, &mut b));
            }
        }
        for _ in 0..r.below(3) {
            damage(r, &mut b);
        }
        b.truncate(200);
        let exact = tame(&b);
        o.session(2 + b.len() as u64 / 8);
        o.mark(&format!("program {} {}", n, ints(&b)));
        o.ev(&format!("{{\"ev\":\"request\",\"bytes\":{},\"n\":{},\"exact\":{}}}", ints(&b), n, exact));
        let mut s: &[u8] = &b;
        let mut flags = vec![false; n];
        let res = guard(|| ColorTransformProgram::decode(&mut s, &mut flags));
        o.ev(&format!("{{\"ev\":\"program\",\"res\":{}}}", io_res(&res)));
    }

    // long stretches of the same word: escapes that never end, runs without limit
    for turn in 0..10 * scale {
        let p = P { bs: 30, ..params(r, 40, 1000) };
        let header = p.header();
        let word = r.pick(&[0u32, 0, 0, 1, 0x8000_0000, u32::max_value(), 0x0010_0000, 0x5555_5555]);
        let words = 1 + r.below(if turn % 3 == 0 { 3000 } else { 2_000_000 / p.n() });
        let mut b: Vec<u8> = vec![];
        if r.chance(3) {
            // a color program of it
            for _ in 0..words {
                b.extend_from_slice(&word.to_le_bytes());
            }
            o.session(2);
            o.mark(&format!("program of {} words {}", words, word));
            o.ev("{\"ev\":\"request\",\"bytes\":[],\"n\":3,\"exact\":false}");
            let mut s: &[u8] = &b;
            let mut flags = vec![false; 3];
            let res = guard(|| ColorTransformProgram::decode(&mut s, &mut flags));
            o.ev(&format!("{{\"ev\":\"program\",\"res\":{}}}", io_res(&res)));
            continue;
        }
        for _ in 0..p.n() {
            b.extend_from_slice(&(words as u32).to_le_bytes());
        }
        for _ in 0..words * p.n() {
            b.extend_from_slice(&word.to_le_bytes());
        }
        let mut file = vec![];
        let _ = guard(|| program(&[]).encode(p.n(), &mut file));
        file.extend_from_slice(&b);
        let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
        let d = r.pick(&[0usize, 0, 1, 3]);
        let q = Request { p: &p, header: &header, d, test: false, room: header.get_downsampled_image_size(d), flags: &flags };
        let entry = r.below(3);
        data(r, o, &q, entry, &b, &file, &format!("{} words {} in every block", words, word));
    }

    // tables of more than 16 bits, cut anywhere
    for _ in 0..4 * scale {
        let long = 65_536 + r.below(150_000);
        let base = params(r, 9, 200);
        let p = match r.below(3) {
            0 => P { w: long, h: 1, layers: 1, channels: 1, bs: 2, ..base },
            1 => P { w: 1, h: long, layers: 1, channels: 1, bs: 2, ..base },
            _ => P { w: long / 5, h: 1, layers: 1, channels: 5, bs: 2, ..base },
        };
        let header = p.header();
        let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
        let img: Vec<u8> = (0..p.total()).map(|i| if r.below(30) == 0 { r.below(256) as u8 } else { (i >> 9) as u8 }).collect();
        let aux = match planes(&p, &[], &img) {
            Some(a) => a,
            None => continue,
        };
        let mut all = vec![0u8; p.room()];
        let mut c = aux.clone();
        match guard(|| gfwx::compress_aux_data(&mut c, &header, &flags, &mut all)) {
            Some(Ok(n)) => all.truncate(n),
            _ => continue,
        }
        for _ in 0..25 {
            let n = if r.chance(3) { all.len() - r.below(1000) } else { r.below(all.len()) };
            let mut b = all[..n].to_vec();
            let mut note = format!("{} bytes of a large file", n);
            if r.chance(3) {
                let k = r.below(n.max(1));
                if k < n {
                    b[k] ^= 1 << r.below(8);
                }
                note = format!("{}, byte {} damaged", note, k);
            }
            let mut file = vec![];
            let _ = guard(|| program(&[]).encode(p.n(), &mut file));
            file.extend_from_slice(&b);
            let d = r.pick(&[0usize, 0, 0, 1, 2, 16]);
            let test = r.chance(5);
            let q = Request { p: &p, header: &header, d, test, room: header.get_downsampled_image_size(d), flags: &flags };
            let entry = r.below(3);
            data(r, o, &q, entry, &b, &file, &note);
        }
    }

    // headers of vast images; nothing of that size is there, and in test mode nothing has to be
    for turn in 0..400 * scale {
        let side = |r: &mut Rng, top: u32| {
            let m = 1usize << r.below(top as usize + 1);
            match r.below(4) {
                0 => m,
                1 => m - 1,
                2 => m + 1,
                _ => m + r.below(m),
            }
            .max(1)
            .min((1 << 30) - 1)
        };
        let test = turn % 3 != 0;
        let most = 16;
        let (mut w, mut h) = (side(r, 30), side(r, 30));
        let (mut layers, mut channels) = if r.chance(3) { (1 + r.below(300), 1 + r.below(300)) } else { (1, 1 + r.below(4)) };
        if !test {
            // sizes that the specification can count
            w = w.min(1 + r.below(40_000));
            h = h.min(1 + r.below(40_000));
            layers = 1;
            channels = 1;
        }
        while (w as u128) * (h as u128) * (layers as u128) * (channels as u128) >= 1 << 63 {
            w = w / 2 + 1;
            layers = layers / 2 + 1;
            channels = channels / 2 + 1;
        }
        let p = P { w, h, layers, channels, ..params(r, 9, 100) };
        let header = p.header();
        let flags: Vec<bool> = if r.chance(2) { (0..p.n()).map(|_| r.chance(2)).collect() } else { vec![] };
        let words = r.below(200);
        let kind = r.below(4);
        let b: Vec<u8> = match kind {
            0 => noise(r, 4 * words),
            1 => vec![0; 4 * words * 20],
            _ => (0..words * 4).map(|i| if i % 4 == 0 { r.below(kind) as u8 } else { 0 }).collect(),
        };
        let mut file = vec![];
        let _ = guard(|| program(&[]).encode(p.n(), &mut file));
        file.extend_from_slice(&b);
        let d = if test { r.pick(&[0usize, 0, 0, 1, 2, 5, 12, 20, 30]) } else { r.below(3) };
        let wanted = header.get_downsampled_image_size(d);
        let room = if wanted <= 1 { 0 } else { r.below(wanted.min(1 << most)) };
        let q = Request { p: &p, header: &header, d, test, room, flags: &flags };
        let entry = r.below(3);
        data(r, o, &q, entry, &b, &file, "");
    }

    // image data
    for turn in 0..2500 * scale {
        let p = if turn % 40 == 0 { params(r, 160, 20_000) } else { params(r, 30, 900) };
        let header = p.header();
        let mut flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
        let co = coefs(r, p.total());
        let mut bytes = match turn % 5 {
            0 => {
                let m = r.below(p.total() * 2 + 60);
                noise(r, m)
            }
            _ => {
                let most = r.below(3);
                let seed = r.next();
                let mut r2 = Rng::new(seed);
                match assemble(&p, &flags, &co, &mut |_| r2.below(most + 1)) {
                    Some(b) => b,
                    None => continue,
                }
            }
        };
        if turn % 5 == 1 {
            // spliced with the data of another image
            let other = params(r, 30, 900);
            let c2 = coefs(r, other.total());
            let f2 = vec![false; other.n()];
            if let Some(b) = assemble(&other, &f2, &c2, &mut |_| 0) {
                let k = r.below(bytes.len() + 1);
                let m = r.below(b.len() + 1);
                bytes.truncate(k);
                bytes.extend_from_slice(&b[m..]);
            }
        }
        for variant in 0..6 {
            let mut b = bytes.clone();
            for _ in 0..r.below(4) {
                damage(r, &mut b);
            }
            let d = r.pick(&[0usize, 0, 0, 1, 2, 3, 4, 6, 10, 16]);
            let mut room = header.get_downsampled_image_size(d);
            let entry = r.below(3);
            if variant == 5 {
                // too small somewhere, or larger than needed
                match r.below(4) {
                    0 => room = r.below(room),
                    1 => room -= 1,
                    2 => {
                        let k = r.below(flags.len());
                        flags.truncate(k);
                    }
                    _ => {
                        room += r.pick(&[1usize, 8, p.w, 50, p.w * p.h, p.w * p.h + p.w / 2]);
                        for _ in 0..r.below(4) {
                            flags.push(r.chance(2));
                        }
                    }
                }
            }
            let mut file = vec![];
            match r.below(4) {
                0 => {
                    // a program in front that fits, perhaps damaged
                    let t = custom(r, p.n().min(8), true);
                    let _ = guard(|| program(&t).encode(p.n(), &mut file));
                    if r.chance(2) {
                        damage(r, &mut file);
                    }
                }
                1 => {
                    let m = r.below(40);
                    file = noise(r, m);
                }
                _ => {
                    let _ = guard(|| program(&[]).encode(p.n(), &mut file));
                }
            }
            file.extend_from_slice(&b);
            let test = r.chance(5);
            if test && r.chance(3) {
                room = r.below(room + 1);
            }
            let q = Request { p: &p, header: &header, d, test, room, flags: &flags };
            data(r, o, &q, entry, &b, &file, "");
        }
    }
    println!("events {}", o.events);
    out.finish();
}
