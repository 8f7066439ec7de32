//! C03: decoding complete streams: the library's, padded ones, foreign ones, arbitrary bits.
use gfwx::compress::decompress_image_data;
use gvharness::codec::*;
use gvharness::*;

fn area(p: &P) -> usize {
    p.total()
}

fn stages(r: &mut Rng, o: &mut Out, p: &P, prog: &[T], flags: &[bool], bytes: &[u8], known: Option<&[i16]>, planes: bool) {
    o.session(p.total() as u64 * 2 + 40);
    o.mark(&format!("decode {} {}", p.json(), prog_json(prog)));
    let extra = match known {
        Some(c) => format!(",\"coefs\":{}", ints(c)),
        None => String::new(),
    };
    o.ev(&format!("{{\"ev\":\"stream\",\"p\":{},\"chroma\":{},\"bytes\":{}{}}}", p.json(), bools(flags), ints(bytes), extra));
    let header = p.header();
    // more room and more flags than needed
    let more = if r.chance(2) { 0 } else { r.pick(&[1usize, p.w, p.w + 1, p.w * p.h, p.w * p.h + p.w / 2 + 1, 40]) };
    let junk: Vec<i16> = (0..more).map(|_| r.range(-3000, 3000) as i16).collect();
    let mut flags = flags.to_vec();
    for _ in 0..r.below(3) {
        flags.push(r.chance(2));
    }
    let flags = &flags[..];
    let mut co = vec![0i16; area(p)];
    co.extend(&junk);
    let res = guard(|| decompress_image_data(&mut co, &header, bytes, 0, false, flags));
    let same = co[area(p)..] == junk[..];
    co.truncate(area(p));
    o.ev(&format!("{{\"ev\":\"coefs\",\"res\":{},\"surplus\":{},\"coefs\":{}}}", dres(&res), same, ints(&co)));
    if !planes {
        return;
    }
    let mut aux = vec![0i16; area(p)];
    aux.extend(&junk);
    let res = guard(|| gfwx::decompress_aux_data(bytes, &header, flags, 0, false, &mut aux));
    let same = aux[area(p)..] == junk[..];
    aux.truncate(area(p));
    o.ev(&format!("{{\"ev\":\"aux\",\"res\":{},\"surplus\":{},\"aux\":{}}}", dres(&res), same, ints(&aux)));
    let mut file = vec![];
    if guard(|| program(prog).encode(p.n(), &mut file)).is_none() {
        return;
    }
    file.extend_from_slice(bytes);
    let fill = r.below(256) as u8;
    let mut img = vec![fill; area(p) + more];
    let res = guard(|| gfwx::decompress_simple(&file, &header, 0, false, &mut img));
    let same = img[area(p)..].iter().all(|&x| x == fill);
    img.truncate(area(p));
    o.ev(&format!("{{\"ev\":\"image\",\"prog\":{},\"res\":{},\"surplus\":{},\"img\":{}}}", prog_json(prog), dres(&res), same, ints(&img)));
}

/// 24 zero bits in a row could mean numbers beyond what the specification counts with
fn tame(words: &[u8]) -> bool {
    let mut run = 0;
    for w in words.chunks(4) {
        for &b in w.iter().rev() {
            for k in (0..8).rev() {
                if b >> k & 1 == 0 {
                    run += 1;
                    if run >= 24 {
                        return false;
                    }
                } else {
                    run = 0;
                }
            }
        }
    }
    true
}

/// blocks of arbitrary bits
fn wild(r: &mut Rng, p: &P) -> Vec<u8> {
    let mut s = 1;
    while 2 * s < p.w.max(p.h) {
        s *= 2;
    }
    let mut out = vec![];
    let density = r.below(3);
    while s >= 1 {
        let e = s << p.bs;
        let (nx, ny) = ((p.w + e - 1) / e, (p.h + e - 1) / e);
        let n = nx * ny * p.n();
        let mut blocks = vec![];
        for k in 0..n {
            let bw = (p.w - (k % nx) * e).min(e);
            let bh = (p.h - (k / nx % ny) * e).min(e);
            let cells = ((bw + s - 1) / s) * ((bh + s - 1) / s);
            let words = 2 + cells * 2 / 3 + r.below(3);
            let b: Vec<u8> = loop {
                let b: Vec<u8> = (0..4 * words)
                    .map(|_| match density {
                        0 => r.below(256) as u8,
                        1 => (r.below(256) | r.below(256)) as u8,
                        _ => (r.below(256) & r.below(256) | 1 << r.below(8)) as u8,
                    })
                    .collect();
                if tame(&b) {
                    break b;
                }
            };
            blocks.push(b);
        }
        for b in &blocks {
            let n = (b.len() / 4) as u32;
            out.extend_from_slice(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, 0]);
        }
        for b in &blocks {
            out.extend_from_slice(b);
        }
        s /= 2;
    }
    out
}

/// the blocks of every level of a frame
fn split(p: &P, bytes: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let mut s = 1;
    while 2 * s < p.w.max(p.h) {
        s *= 2;
    }
    let mut at = 0;
    let mut out = vec![];
    while s >= 1 {
        let e = s << p.bs;
        let n = ((p.w + e - 1) / e) * ((p.h + e - 1) / e) * p.n();
        let mut body = at + 4 * n;
        let mut blocks = vec![];
        for k in 0..n {
            let t = at + 4 * k;
            let len = 4 * (bytes[t] as usize + 256 * bytes[t + 1] as usize + 65536 * bytes[t + 2] as usize);
            blocks.push(bytes[body..body + len].to_vec());
            body += len;
        }
        at = body;
        out.push(blocks);
        s /= 2;
    }
    out
}
fn join(levels: &[Vec<Vec<u8>>]) -> Vec<u8> {
    let mut out = vec![];
    for blocks in levels {
        for b in blocks {
            out.extend_from_slice(&((b.len() / 4) as u32).to_le_bytes());
        }
        for b in blocks {
            out.extend_from_slice(b);
        }
    }
    out
}

/// S02: some blocks of a file are damaged
fn damage(r: &mut Rng, o: &mut Out, thorough: bool) {
    let budget = if thorough { 1_200_000 } else { 45_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        let mut p = if turn % 40 == 5 {
            P { w: 130 + r.below(9), h: 127 + r.below(9), layers: 1, channels: 1, quality: 900, cs: 1, bs: 5, filter: 0, encoder: r.below(3) }
        } else {
            params(r, 40, 1000)
        };
        p.bs = if turn % 40 == 5 { 4 } else { 2 + r.below(2) };
        let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
        let c = coefs(r, p.total());
        let whole = match assemble(&p, &flags, &c, &mut |_| 0) {
            Some(b) => b,
            None => continue,
        };
        spent += p.total() + 40;
        let mut levels = split(&p, &whole);
        let at = if r.chance(2) { levels.len() - 1 } else { r.below(levels.len()) };
        for _ in 0..1 + r.below(3) {
            let n = levels[at].len();
            let k = r.below(n);
            let b = &mut levels[at][k];
            let words = b.len() / 4;
            if words == 0 {
                continue;
            }
            match r.below(4) {
                0 => {
                    let mut d = b.clone();
                    for _ in 0..1 + r.below(3) {
                        let j = r.below(d.len());
                        d[j] ^= 1 << r.below(8);
                    }
                    if tame(&d) {
                        *b = d;
                    }
                }
                1 => {
                    let mut d: Vec<u8> = (0..b.len()).map(|_| r.below(256) as u8).collect();
                    if !tame(&d) {
                        d = vec![0x55; b.len()];
                    }
                    *b = d;
                }
                _ => b.truncate(4 * r.below(words)),
            }
        }
        stages(r, o, &p, &[], &flags, &join(&levels), None, false);
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let mut o = Out::new(&a.out, a.shards);
    if a.topic == "damage" {
        damage(&mut r, &mut o, a.thorough);
        println!("events {}", o.events);
        o.finish();
        return;
    }
    // what the specification generated
    if let Some(path) = a.extra.get(0) {
        for line in std::fs::read_to_string(path).unwrap().lines() {
            let v: Vec<i64> = line.trim().trim_matches(|c| c == '[' || c == ']').split(',').map(|x| x.trim().parse().unwrap()).collect();
            let g = |k: usize| v[k] as usize;
            let p = P { w: g(0), h: g(1), layers: g(2), channels: g(3), quality: g(4), cs: g(5), bs: g(6), filter: g(7), encoder: g(8) };
            let n = p.n();
            let flags: Vec<bool> = (0..n).map(|c| v[9 + c] == 1).collect();
            let co: Vec<i16> = (0..p.total()).map(|j| v[9 + n + j] as i16).collect();
            let bytes: Vec<u8> = v[9 + n + p.total()..].iter().map(|&x| x as u8).collect();
            stages(&mut r, &mut o, &p, &[], &flags, &bytes, Some(&co), false);
        }
    }
    let budget = if a.thorough { 3_000_000 } else { 110_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        let p = if turn % 12 == 0 { params(&mut r, 120, 5000) } else { params(&mut r, 26, 700) };
        spent += p.total() + 40;
        let r = &mut r;
        let o = &mut o;
        match turn % 5 {
            0 => {
                // arbitrary bits
                let mut p = p;
                if p.total() > 600 {
                    p = params(r, 20, 300);
                }
                p.bs = p.bs.min(10);
                let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
                let b = wild(r, &p);
                stages(r, o, &p, &[], &flags, &b, None, false);
            }
            1 => {
                let flags: Vec<bool> = (0..p.n()).map(|_| r.chance(2)).collect();
                let c = coefs(r, p.total());
                let most = r.below(4);
                let seed = r.next();
                let mut r2 = Rng::new(seed);
                if let Some(b) = assemble(&p, &flags, &c, &mut |_| if r2.chance(3) { r2.below(most + 1) } else { 0 }) {
                    stages(r, o, &p, &[], &flags, &b, None, false);
                }
            }
            k => {
                let img = samples(r, p.w, p.h, p.n());
                let prog = fitting_program(r, &p, &img);
                let flags = chroma(&prog, p.n());
                let mut aux = match planes(&p, &prog, &img) {
                    Some(x) => x,
                    None => continue,
                };
                let mut buf = vec![0u8; p.room()];
                let header = p.header();
                let n = match guard(|| gfwx::compress_aux_data(&mut aux, &header, &flags, &mut buf)) {
                    Some(Ok(n)) => n,
                    _ => continue,
                };
                buf.truncate(n);
                if k == 2 {
                    let seed = r.next();
                    let mut r2 = Rng::new(seed);
                    buf = match assemble(&p, &flags, &aux, &mut |_| if r2.chance(2) { r2.below(4) } else { 0 }) {
                        Some(b) => b,
                        None => continue,
                    };
                }
                if k == 3 {
                    // bytes behind the payload
                    let more = r.below(30);
                    buf.extend((0..more).map(|_| r.below(256) as u8));
                }
                stages(r, o, &p, &prog, &flags, &buf, None, true);
            }
        }
    }
    println!("events {}", o.events);
    o.finish();
}
