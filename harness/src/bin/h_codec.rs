use gvharness::codec::*;
use gvharness::*;

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let mut o = Out::new(&a.out, a.shards);
    match a.topic.as_str() {
        "lossless" => lossless(&mut r, &mut o, a.thorough),
        "format" => format_(&mut r, &mut o, a.thorough),
        t => panic!("no topic {}", t),
    }
    println!("events {}", o.events);
    o.finish();
}

/// C01: quality 1024, chroma scale 1 or no chroma channel
fn lossless(r: &mut Rng, o: &mut Out, thorough: bool) {
    let mut one = |r: &mut Rng, p: &P, prog: &[T], img: &[u8]| {
        o.session(1);
        o.mark(&format!("lossless {} {}", p.json(), prog_json(prog)));
        let small = img.len() <= 48;
        let show = |v: &[u8]| if small { ints(v) } else { format!("\"{}\"", dig8(v)) };
        let c = compress_file(p, prog, img);
        let res = match &c {
            None => "[\"panic\"]".to_string(),
            Some(Err(_)) => "[\"err\"]".to_string(),
            Some(Ok(c)) => format!("[\"ok\",{}]", c.file.len()),
        };
        o.ev(&format!(
            "{{\"ev\":\"save\",\"p\":{},\"prog\":{},\"img\":{},\"res\":{}}}",
            p.json(),
            prog_json(prog),
            show(img),
            res
        ));
        if let Some(Ok(c)) = c {
            // another buffer content must not matter
            let fill = r.below(256) as u8;
            let mut out = vec![fill; img.len()];
            let header = guard(|| gfwx::Header::decode(&mut &c.file[..]));
            let res = match &header {
                Some(Ok(h)) => {
                    let d = guard(|| gfwx::decompress_simple(&c.file[32..], h, 0, false, &mut out));
                    dres(&d)
                }
                Some(Err(_)) => "[\"err\",\"header\"]".into(),
                None => "[\"panic\"]".into(),
            };
            o.ev(&format!("{{\"ev\":\"load\",\"res\":{},\"img\":{}}}", res, show(&out)));
        }
    };
    let n = if thorough { 30000 } else { 3000 };
    for k in 0..n {
        let (max_dim, max_total) = if k % 40 == 0 { (300, 200_000) } else if k % 4 == 0 { (90, 20_000) } else { (40, 4000) };
        let mut p = params(r, max_dim, max_total);
        p.quality = 1024;
        let img = samples(r, p.w, p.h, p.n());
        let prog = fitting_program(r, &p, &img);
        if chroma(&prog, p.n()).iter().any(|&c| c) {
            p.cs = 1;
        }
        one(r, &p, &prog, &img);
    }
    // long lines, long runs, large blocks, many channels and layers
    let mut special: Vec<(usize, usize, usize, usize, usize)> = vec![
        (70000, 1, 1, 1, 7), (1, 70000, 1, 1, 7), (66000, 6, 1, 1, 30), (6, 66000, 1, 1, 30), (3, 20000, 1, 2, 30), (20000, 3, 1, 1, 2),
        (513, 511, 1, 1, 30), (640, 480, 1, 3, 7), (600, 600, 1, 1, 12), (300, 300, 2, 2, 2), (8, 8, 3, 90, 7),
        (3, 3, 1, 300, 2), (2, 2, 300, 2, 4), (129, 130, 1, 4, 3), (1, 1, 1, 3, 2), (257, 65, 1, 3, 5),
    ];
    if thorough {
        special.extend_from_slice(&[(2049, 1025, 1, 1, 7), (1, 300000, 1, 1, 7), (1500, 1500, 1, 3, 20), (4, 4, 1, 5000, 7), (1, 1, 65535, 1, 7), (1, 1, 1, 65535, 7)]);
    }
    // more than 65536 blocks, channels, and zeros in one run
    for &(w, h, layers, channels, bs) in &[(1100, 1100, 1, 1, 2), (1200, 1200, 1, 1, 30), (1, 1, 300, 300, 7), (2, 1, 2, 40000, 2)] {
        special.push((w, h, layers, channels, bs));
    }
    for (w, h, layers, channels, bs) in special {
        let vast = w * h * layers * channels > 500_000;
        for encoder in 0..3 {
            for kind in 0..3 {
                if vast && !thorough && kind != (encoder + bs) % 3 && (kind, bs) != (0, 30) {
                    continue;
                }
                let p = P { w, h, layers, channels, quality: 1024, cs: 1, bs, filter: r.below(2), encoder };
                let img: Vec<u8> = match kind {
                    0 => {
                        // a single sample somewhere in a flat image: runs as long as the image
                        let mut v = vec![r.below(256) as u8; p.total()];
                        let at = r.below(v.len());
                        if !vast {
                            v[at] ^= 255;
                        }
                        v
                    }
                    1 => (0..p.total()).map(|_| r.below(256) as u8).collect(),
                    _ => samples(r, p.w, p.h, p.n()),
                };
                let prog = if r.chance(2) { fitting_program(r, &p, &img) } else { vec![] };
                one(r, &p, &prog, &img);
            }
        }
    }
}

/// C02: every stage of compression
fn format_(r: &mut Rng, o: &mut Out, thorough: bool) {
    let mut one = |r: &mut Rng, p: &P, prog: &[T], img: &[u8]| {
        o.session(p.total() as u64 + 50);
        o.mark(&format!("format {} {}", p.json(), prog_json(prog)));
        o.ev(&format!(
            "{{\"ev\":\"image\",\"p\":{},\"prog\":{},\"img\":{}}}",
            p.json(),
            prog_json(prog),
            ints(img)
        ));
        let header = p.header();
        let aux = match planes(p, prog, img) {
            Some(a) => a,
            None => {
                o.ev("{\"ev\":\"planes\",\"res\":[\"panic\"],\"aux\":[]}");
                return;
            }
        };
        o.ev(&format!("{{\"ev\":\"planes\",\"res\":[\"ok\"],\"aux\":{}}}", ints(&aux)));
        let flags = chroma(prog, p.n());
        let mut coefs = aux.clone();
        // more samples and more flags than needed
        let more = if r.chance(2) { 0 } else { r.pick(&[1usize, p.w, p.w + 1, p.w * p.h, p.w * p.h + p.w / 2 + 1, 40]) };
        let junk: Vec<i16> = (0..more).map(|_| r.range(-3000, 3000) as i16).collect();
        coefs.extend(&junk);
        let mut flags = flags;
        for _ in 0..r.below(3) {
            flags.push(r.chance(2));
        }
        let mut buf = vec![r.below(256) as u8; p.room()];
        let res = guard(|| gfwx::compress_aux_data(&mut coefs, &header, &flags, &mut buf));
        let n = match &res {
            Some(Ok(n)) => *n,
            _ => 0,
        };
        let same = coefs[aux.len()..] == junk[..];
        coefs.truncate(aux.len());
        o.ev(&format!("{{\"ev\":\"coefs\",\"surplus\":{},\"coefs\":{}}}", same, ints(&coefs)));
        o.ev(&format!("{{\"ev\":\"payload\",\"res\":{},\"bytes\":{}}}", cres(&res), ints(&buf[..n.min(p.room())])));
        let c = compress_file(p, prog, img);
        let (res, bytes) = match &c {
            Some(Ok(c)) => (format!("[\"ok\",{}]", c.file.len()), ints(&c.file)),
            Some(Err(_)) => ("[\"err\"]".into(), "[]".into()),
            None => ("[\"panic\"]".into(), "[]".into()),
        };
        o.ev(&format!("{{\"ev\":\"file\",\"res\":{},\"bytes\":{}}}", res, bytes));
    };
    let budget = if thorough { 6_000_000 } else { 240_000 };
    let mut spent = 0;
    let mut k = 0;
    while spent < budget {
        let (max_dim, max_total) = match k % 12 {
            0 => (140, 9000),
            1 | 2 => (60, 3000),
            _ => (24, 700),
        };
        k += 1;
        let p = params(r, max_dim, max_total);
        let img = samples(r, p.w, p.h, p.n());
        let prog = fitting_program(r, &p, &img);
        spent += p.total() + 50;
        one(r, &p, &prog, &img);
    }
    // one image above every threshold, with long runs
    let big = P { w: 140, h: 131, layers: 1, channels: 1, quality: 700, cs: 1, bs: 6, filter: 1, encoder: r.below(3) };
    let mut img = vec![90u8; big.total()];
    for _ in 0..40 {
        let at = r.below(img.len());
        img[at] = r.below(256) as u8;
    }
    one(r, &big, &[], &img);
}
