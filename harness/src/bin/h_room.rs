//! C07: buffers of every size.
use gvharness::codec::*;
use gvharness::*;

fn level_sizes(p: &P, payload: &[u8]) -> Option<Vec<Vec<i64>>> {
    let mut s = 1;
    while 2 * s < p.w.max(p.h) {
        s *= 2;
    }
    let mut pos = 0;
    let mut out = vec![];
    while s >= 1 {
        let e = s << p.bs;
        let n = ((p.w + e - 1) / e) * ((p.h + e - 1) / e) * p.n();
        let mut v = vec![];
        for k in 0..n {
            let b = payload.get(pos + 4 * k..pos + 4 * k + 4)?;
            v.push(4 * (i64::from(b[0]) + 256 * i64::from(b[1]) + 65536 * i64::from(b[2])));
        }
        pos += 4 * n + v.iter().sum::<i64>() as usize;
        out.push(v);
        s /= 2;
    }
    Some(out)
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let mut o = Out::new(&a.out, a.shards);
    let r = &mut r;
    let thorough = a.thorough;
    let budget = if a.thorough { 12_000_000 } else { 1_200_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        // a block of more than 2^18 bytes
        let vast = turn == 3 || thorough && turn % 200 == 3;
        let p = match turn % 25 {
            _ if vast => {
                let side = 560 + r.below(80);
                P { w: side, h: side, layers: 1, channels: 1, quality: 1024, cs: 1, bs: 10 + r.below(20), ..params(r, 9, 100) }
            }
            0 => params(r, 300, 90_000),
            1 | 2 | 3 | 4 => params(r, 70, 6000),
            _ => params(r, 24, 500),
        };
        let mut img = if vast { (0..p.total()).map(|_| r.below(256) as u8).collect() } else { samples(r, p.w, p.h, p.n()) };
        if turn % 25 == 0 {
            // levels with blocks of very different sizes
            for x in img.iter_mut().skip(p.total() / 3) {
                *x = 77;
            }
        }
        let prog = if vast { vec![] } else { fitting_program(r, &p, &img) };
        let flags = chroma(&prog, p.n());
        let aux = match planes(&p, &prog, &img) {
            Some(x) => x,
            None => continue,
        };
        let simple = r.chance(2);
        let header = p.header();
        let program = program(&prog);
        let mut front = 0;
        if simple {
            let mut b = vec![];
            if guard(|| program.encode(p.n(), &mut b)).is_none() {
                continue;
            }
            front = 32 + b.len();
        }
        // cap bytes of room, filled with fill, with a guard behind
        let run = |cap: usize, fill: u8| {
            const ZONE: usize = 64;
            let mut buf = vec![fill; cap + ZONE];
            for (i, b) in buf[cap..].iter_mut().enumerate() {
                *b = 0xC3 ^ i as u8;
            }
            let res = if simple {
                guard(|| gfwx::compress_simple(&img, &header, &program, &mut buf[..cap]))
            } else {
                let mut c = aux.clone();
                guard(|| gfwx::compress_aux_data(&mut c, &header, &flags, &mut buf[..cap]))
            };
            let behind = buf[cap..].iter().enumerate().all(|(i, &b)| b == 0xC3 ^ i as u8);
            let n = match &res {
                Some(Ok(n)) => (*n).min(cap),
                _ => 0,
            };
            (cres(&res), behind, buf[..n].to_vec())
        };
        let roomy = p.room() + front;
        let (res, behind, out) = run(roomy, r.below(256) as u8);
        if out.len() < front {
            o.session(1);
            o.ev(&format!("{{\"ev\":\"known\",\"res\":{},\"behind\":{},\"front\":{},\"levels\":[],\"sum\":\"\"}}", res, behind, front));
            continue;
        }
        let levels = match level_sizes(&p, &out[front..]) {
            Some(l) => l,
            None => vec![],
        };
        let blocks: usize = levels.iter().map(|l| l.len()).sum();
        let total = out.len();
        // the largest share any block needs, for every level
        let mut edges = vec![front, total, total + front];
        let mut used = front;
        for l in &levels {
            let most = *l.iter().max().unwrap_or(&0) as usize;
            let n = l.len();
            for e in &[0i64, -1, 1, n as i64, -(n as i64)] {
                edges.push((used as i64 + 4 * n as i64 + (n * most) as i64 + e).max(0) as usize);
                edges.push((used as i64 + 4 * n as i64 + e).max(0) as usize);
            }
            used += 4 * n + l.iter().sum::<i64>() as usize;
        }
        let limit = edges.iter().cloned().max().unwrap_or(0) + 8;
        let mut caps: Vec<usize> = if limit < 700 { (0..limit).collect() } else { (0..60).map(|_| r.below(limit)).collect() };
        caps.extend(edges);
        caps.push(roomy);
        caps.sort();
        caps.dedup();
        while caps.len() > if vast { 50 } else { 900 } {
            let at = r.below(caps.len());
            caps.swap_remove(at);
        }
        // any order
        for k in (1..caps.len()).rev() {
            caps.swap(k, r.below(k + 1));
        }
        let cost = caps.len() * (20 + blocks / 2);
        spent += cost;
        o.session(cost as u64);
        o.ev(&format!(
            "{{\"ev\":\"known\",\"p\":{},\"simple\":{},\"res\":{},\"behind\":{},\"front\":{},\"levels\":{},\"sum\":\"{}\"}}",
            p.json(),
            simple,
            res,
            behind,
            front,
            list(&levels.iter().map(|l| ints(l)).collect::<Vec<_>>()),
            dig8(&out)
        ));
        o.mark(&format!("room {} {}", p.json(), prog_json(&prog)));
        // more or fewer samples, coefficients and flags than there are in the image
        for _ in 0..if vast { 1 } else { 4 } {
            let other = |r: &mut Rng, n: usize| match r.below(6) {
                0 | 1 => n,
                2 => n - 1,
                3 => r.below(n),
                4 => n + 1,
                _ => n + 1 + r.below(n + 9),
            };
            // a multiple of 256 too few or too many
            let many = |r: &mut Rng, n: usize| match r.below(6) {
                0 if n > 256 => n - 256,
                1 => n % 256,
                2 => n + 256,
                _ => other(r, n),
            };
            let len = if r.chance(2) { p.total() } else { other(r, p.total()) };
            let nflags = if simple { p.n() } else { many(r, p.n()) };
            let cap = if r.chance(4) { r.below(roomy) } else { roomy };
            let mut buf = vec![r.below(256) as u8; cap + 64];
            for (i, b) in buf[cap..].iter_mut().enumerate() {
                *b = 0x5A ^ i as u8;
            }
            let res = if simple {
                let mut im = img.clone();
                im.resize(len, r.below(256) as u8);
                guard(|| gfwx::compress_simple(&im, &header, &program, &mut buf[..cap]))
            } else {
                let mut c = aux.clone();
                c.resize(len, r.range(-9000, 9000) as i16);
                let mut f = flags.clone();
                f.resize(nflags, r.chance(2));
                guard(|| gfwx::compress_aux_data(&mut c, &header, &f, &mut buf[..cap]))
            };
            let behind = buf[cap..].iter().enumerate().all(|(i, &b)| b == 0x5A ^ i as u8);
            let n = match &res {
                Some(Ok(n)) => (*n).min(cap),
                _ => 0,
            };
            o.ev(&format!(
                "{{\"ev\":\"lens\",\"need\":{},\"len\":{},\"n\":{},\"flags\":{},\"cap\":{},\"res\":{},\"behind\":{},\"sum\":\"{}\"}}",
                p.total(), len, p.n(), nflags, cap, cres(&res), behind, dig8(&buf[..n])
            ));
        }
        for cap in caps {
            let (res, behind, out) = run(cap, r.below(256) as u8);
            o.ev(&format!("{{\"ev\":\"try\",\"cap\":{},\"res\":{},\"behind\":{},\"sum\":\"{}\"}}", cap, res, behind, dig8(&out)));
        }
    }
    println!("events {}", o.events);
    o.finish();
}
