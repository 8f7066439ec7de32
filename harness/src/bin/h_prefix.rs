//! C04, C05, C06: decoding prefixes and reduced images of known files.
use gfwx::compress::decompress_image_data;
use gvharness::codec::*;
use gvharness::*;
use std::collections::HashMap;

struct File {
    p: P,
    prog: Vec<T>,
    prog_bytes: Vec<u8>,
    flags: Vec<bool>,
    payload: Vec<u8>,
    coefs: Vec<i16>,
    /// samples are meaningful, not only coefficients
    real: bool,
}

fn steps(p: &P) -> Vec<usize> {
    let mut s = 1;
    while 2 * s < p.w.max(p.h) {
        s *= 2;
    }
    let mut v = vec![];
    while s >= 1 {
        v.push(s);
        s /= 2;
    }
    v
}

/// tables, blocks and payloads of more than 16 bits
fn large(r: &mut Rng) -> File {
    let base = params(r, 9, 200);
    let long = 65_536 + r.below(5000);
    let thick = 280 + r.below(30);
    let mut p = match r.below(4) {
        0 => P { w: long, h: 1, layers: 1, channels: 1, bs: 2, ..base },
        1 => P { w: 1, h: long, layers: 1, channels: 1, bs: 2, ..base },
        2 => P { w: long / 3, h: 1, layers: 3, channels: 1, bs: 2, ..base },
        _ => P { w: thick, h: thick, layers: 1, channels: 1, bs: 8 + r.below(20), quality: 1024, ..base },
    };
    if p.bs == 2 && r.chance(2) {
        p.quality = 700 + r.below(325);
    }
    let mut img: Vec<u8> = if p.bs == 2 {
        (0..p.total()).map(|i| if r.below(30) == 0 { r.below(256) as u8 } else { (i >> 9) as u8 }).collect()
    } else {
        (0..p.total()).map(|_| r.below(256) as u8).collect()
    };
    img[0] = 3;
    let mut f = build(p, vec![], &img).expect("a large file");
    f.real = false;
    f
}

/// positions where blocks and tables start and end
fn landmarks(f: &File) -> (Vec<usize>, Vec<usize>) {
    let mut marks = vec![0];
    let mut level_ends = vec![];
    let mut pos = 0;
    for s in steps(&f.p) {
        let e = s << f.p.bs.min(24);
        let n = ((f.p.w + e - 1) / e) * ((f.p.h + e - 1) / e) * f.p.n();
        let mut at = pos + 4 * n;
        marks.push(at);
        for k in 0..n {
            let q = pos + 4 * k;
            if q + 4 > f.payload.len() {
                return (marks, level_ends);
            }
            let b = &f.payload[q..q + 4];
            at += 4 * (u32::from(b[0]) + 256 * u32::from(b[1]) + 65536 * u32::from(b[2])) as usize;
            marks.push(at);
        }
        pos = at;
        level_ends.push(pos);
    }
    (marks, level_ends)
}

fn small_params(r: &mut Rng, max_dim: usize, max_total: usize) -> P {
    let mut p = params(r, max_dim, max_total);
    if r.chance(2) {
        p.bs = 2;
    }
    p
}

fn build(p: P, prog: Vec<T>, img: &[u8]) -> Option<File> {
    let flags = chroma(&prog, p.n());
    let mut prog_bytes = vec![];
    guard(|| program(&prog).encode(p.n(), &mut prog_bytes))?.ok()?;
    let mut coefs = planes(&p, &prog, img)?;
    let mut payload = vec![0u8; p.room()];
    let header = p.header();
    let n = guard(|| gfwx::compress_aux_data(&mut coefs, &header, &flags, &mut payload))?.ok()?;
    payload.truncate(n);
    Some(File { p, prog, prog_bytes, flags, payload, coefs, real: true })
}

fn file(r: &mut Rng, max_dim: usize, max_total: usize) -> File {
    loop {
        let p = small_params(r, max_dim, max_total);
        let real = !r.chance(4);
        let img = samples(r, p.w, p.h, p.n());
        let prog = fitting_program(r, &p, &img);
        let f = if real {
            build(p, prog, &img)
        } else {
            let flags = chroma(&prog, p.n());
            let mut prog_bytes = vec![];
            if guard(|| program(&prog).encode(p.n(), &mut prog_bytes)).is_none() {
                continue;
            }
            let coefs = coefs(r, p.total());
            assemble(&p, &flags, &coefs, &mut |_| 0).map(|payload| File { p, prog, prog_bytes, flags, payload, coefs, real })
        };
        match f {
            Some(f) if f.payload.len() <= 12_000 => return f,
            _ => {}
        }
    }
}

struct Sess<'a> {
    f: &'a File,
    o: &'a mut Out,
    seen: HashMap<Vec<i16>, usize>,
    fill: u8,
}
impl Sess<'_> {
    fn start<'a>(f: &'a File, o: &'a mut Out, what: &str, cost: u64, r: &mut Rng) -> Sess<'a> {
        o.session(cost);
        o.mark(&format!("{} {} {}", what, f.p.json(), prog_json(&f.prog)));
        o.ev(&format!(
            "{{\"ev\":\"file\",\"lax\":{},\"p\":{},\"prog\":{},\"plen\":{},\"bytes\":{},\"coefs\":{}}}",
            what == "testmode",
            f.p.json(),
            prog_json(&f.prog),
            f.prog_bytes.len(),
            ints(&f.payload),
            ints(&f.coefs)
        ));
        Sess { f, o, seen: HashMap::new(), fill: r.below(256) as u8 }
    }
    fn area(&self, d: usize) -> usize {
        let m = 1usize << d;
        ((self.f.p.w + m - 1) / m) * ((self.f.p.h + m - 1) / m) * self.f.p.n()
    }
    /// bytes of the payload, and something behind it
    fn bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| if i < self.f.payload.len() { self.f.payload[i] } else { (i as u8).wrapping_mul(37) ^ self.fill }).collect()
    }
    fn id(&mut self, v: Vec<i16>) -> usize {
        let k = self.seen.len();
        if let Some(&k) = self.seen.get(&v) {
            return k;
        }
        self.o.ev(&format!("{{\"ev\":\"result\",\"id\":{},\"coefs\":{}}}", k, ints(&v)));
        self.seen.insert(v, k);
        k
    }
    fn tested(&self, d: usize, bytes: &[u8]) -> (String, bool) {
        let header = self.f.p.header();
        let mut aux: Vec<i16> = (0..self.area(d)).map(|i| (i as i16).wrapping_mul(31)).collect();
        let before = aux.clone();
        let t = guard(|| gfwx::decompress_aux_data(bytes, &header, &self.f.flags, d, true, &mut aux));
        (dres(&t), aux == before)
    }
    fn decode(&mut self, d: usize, n: usize, tail: Option<&[u8]>) -> (Option<Result<usize, gfwx::DecompressError>>, Vec<i16>) {
        let mut bytes = self.bytes(n);
        if let Some(t) = tail {
            bytes.extend_from_slice(t);
        }
        let header = self.f.p.header();
        let mut aux = vec![0i16; self.area(d)];
        let res = guard(|| decompress_image_data(&mut aux, &header, &bytes, d, false, &self.f.flags));
        (res, aux)
    }
    fn cut(&mut self, d: usize, n: usize) {
        let bytes = self.bytes(n);
        let (res, aux) = self.decode(d, n, None);
        let (test, kept) = self.tested(d, &bytes);
        let id = self.id(aux);
        self.o.ev(&format!(
            "{{\"ev\":\"cut\",\"d\":{},\"n\":{},\"res\":{},\"id\":{},\"test\":{},\"kept\":{}}}",
            d, n, dres(&res), id, test, kept
        ));
    }
    fn aux(&mut self, d: usize, n: usize) {
        let bytes = self.bytes(n);
        let header = self.f.p.header();
        let mut aux = vec![0i16; self.area(d)];
        let res = guard(|| gfwx::decompress_aux_data(&bytes, &header, &self.f.flags, d, false, &mut aux));
        let (test, kept) = self.tested(d, &bytes);
        self.o.ev(&format!(
            "{{\"ev\":\"aux\",\"d\":{},\"n\":{},\"res\":{},\"aux\":{},\"test\":{},\"kept\":{}}}",
            d, n, dres(&res), ints(&aux), test, kept
        ));
    }
    fn simple(&mut self, d: usize, n: usize) {
        let mut bytes = self.f.prog_bytes.clone();
        bytes.extend(self.bytes(n));
        let header = self.f.p.header();
        let fill = self.fill;
        let mut img = vec![fill; self.area(d)];
        let mut img2 = img.clone();
        let res = guard(|| gfwx::decompress_simple(&bytes, &header, d, false, &mut img));
        let test = guard(|| gfwx::decompress_simple(&bytes, &header, d, true, &mut img2));
        self.o.ev(&format!(
            "{{\"ev\":\"simple\",\"d\":{},\"n\":{},\"res\":{},\"img\":{},\"test\":{},\"kept\":{}}}",
            d, n, dres(&res), ints(&img), dres(&test), img2.iter().all(|&x| x == fill)
        ));
    }
    fn noprogram(&mut self, n: usize) {
        let bytes = self.f.prog_bytes[..n].to_vec();
        let header = self.f.p.header();
        let fill = self.fill;
        let mut img = vec![fill; self.area(0)];
        let test = guard(|| gfwx::decompress_simple(&bytes, &header, 0, true, &mut img));
        let kept = img.iter().all(|&x| x == fill);
        let res = guard(|| gfwx::decompress_simple(&bytes, &header, 0, false, &mut img));
        self.o.ev(&format!("{{\"ev\":\"noprogram\",\"n\":{},\"res\":{},\"test\":{},\"kept\":{}}}", n, dres(&res), dres(&test), kept));
    }
    /// a reader that fetches what it is told to
    fn fetch(&mut self, d: usize, start: usize) {
        let total = self.f.payload.len();
        let mut n = start.min(total);
        let mut hist = vec![];
        let mut last;
        loop {
            let (res, aux) = self.decode(d, n, None);
            last = aux;
            hist.push(format!("[{},{}]", n, dres(&res)));
            n = match res {
                Some(Ok(0)) | None => break,
                Some(Ok(p)) => p.min(total),
                // nothing better to do than to fetch everything
                Some(Err(_)) if n < total => total,
                Some(Err(_)) => break,
            };
            if hist.len() > 40 {
                break;
            }
        }
        let id = self.id(last);
        self.o.ev(&format!("{{\"ev\":\"fetch\",\"d\":{},\"steps\":{},\"id\":{}}}", d, list(&hist), id));
    }
    fn any(&mut self, d: usize, bytes: &[u8]) {
        let header = self.f.p.header();
        let mut aux = vec![0i16; self.area(d)];
        let res = guard(|| gfwx::decompress_aux_data(bytes, &header, &self.f.flags, d, false, &mut aux));
        let (test, kept) = self.tested(d, bytes);
        self.o.ev(&format!("{{\"ev\":\"any\",\"d\":{},\"real\":{},\"test\":{},\"kept\":{}}}", d, dres(&res), test, kept));
    }
    fn any_simple(&mut self, d: usize, bytes: &[u8]) {
        let header = self.f.p.header();
        let fill = self.fill;
        let mut img = vec![fill; self.area(d)];
        let mut img2 = img.clone();
        let res = guard(|| gfwx::decompress_simple(bytes, &header, d, false, &mut img));
        let test = guard(|| gfwx::decompress_simple(bytes, &header, d, true, &mut img2));
        self.o.ev(&format!(
            "{{\"ev\":\"any\",\"d\":{},\"real\":{},\"test\":{},\"kept\":{}}}",
            d, dres(&res), dres(&test), img2.iter().all(|&x| x == fill)
        ));
    }
}

/// a few cuts of a large file
fn far(r: &mut Rng, o: &mut Out, what: &str, thorough: bool) {
    for _ in 0..if thorough { 16 } else { 2 } {
        let f = large(r);
        let mut s = Sess::start(&f, o, what, 40_000, r);
        let (marks, ends) = landmarks(&f);
        let total = f.payload.len();
        let needed = |d: usize| if d >= ends.len() { 0 } else { ends[ends.len() - 1 - d] };
        if what == "reduced" {
            for d in 0..=ends.len() {
                s.cut(d, needed(d));
                s.cut(d, total);
            }
            continue;
        }
        let last_table = if ends.len() > 1 { ends[ends.len() - 2] } else { 0 };
        let mut at = vec![total, total - 1, total - 4, last_table, last_table + 4, last_table + 400, 65_536, 65_537, 65_532];
        let first_block = last_table + 4 * (marks.iter().filter(|&&m| m > last_table).count() - 1).max(1);
        at.extend(&[first_block - 4, first_block, first_block + 4, first_block + 65_536, last_table + 65_536, last_table + 65_540]);
        for _ in 0..3 {
            let k = marks.len() - 1 - r.below(marks.len() / 2);
            at.extend(&[marks[k], marks[k] - 1, marks[k] + 1]);
            at.push(r.below(total));
        }
        for n in at {
            s.cut(0, n.min(total));
        }
        let d = 1 + r.below(3);
        for n in vec![needed(d), needed(d) - 1, needed(d) / 2, needed(d) - needed(d) / 5] {
            s.cut(d, n);
        }
        if what == "prefix" {
            s.fetch(0, 0);
            s.fetch(d, r.below(total));
        }
    }
}

/// thumbnails of images of millions of columns or rows
fn thumbs(r: &mut Rng, o: &mut Out, thorough: bool) {
    for turn in 0..if thorough { 120 } else { 12 } {
        let long = if turn % 3 == 0 { (1 << 20) + r.below(1 << 20) } else { (1 << 21) + 1 + r.below(1 << 18) };
        let other = 1 + r.below(2);
        let quality = r.pick(&[1024usize, 1024, 1023, 512, 513, 700, 100, 1, 2]);
        let (w, h) = if r.chance(2) { (long, other) } else { (other, long) };
        let encoder = if turn % 4 == 3 { r.below(3) } else { 0 };
        let p = P { w, h, layers: 1, channels: 1, quality, cs: 1, bs: 20 + r.below(11), filter: r.below(2), encoder };
        let grid = 1 << (15 + r.below(6));
        let mut coefs = vec![0i16; p.total()];
        for y in (0..h).step_by(grid) {
            for x in (0..w).step_by(grid) {
                coefs[y * w + x] = if r.chance(4) { 0 } else { r.range(-300, 300) as i16 };
            }
        }
        let flags = vec![false];
        let payload = match assemble(&p, &flags, &coefs, &mut |_| 0) {
            Some(b) => b,
            None => continue,
        };
        let f = File { p, prog: vec![], prog_bytes: vec![], flags, payload, coefs, real: false };
        let (_, ends) = landmarks(&f);
        o.session(600);
        for d in 16..=22 {
            let n = if d >= ends.len() { 0 } else { ends[ends.len() - 1 - d] };
            let m = 1 << d;
            let (wd, hd) = ((w + m - 1) / m, (h + m - 1) / m);
            // deeper than that there is nothing but the file's end
            if d >= ends.len() {
                continue;
            }
            let mut got = vec![0i16; wd * hd];
            let header = f.p.header();
            let res = guard(|| decompress_image_data(&mut got, &header, &f.payload[..n], d, false, &f.flags));
            let want: Vec<i16> = (0..wd * hd).map(|i| f.coefs[(i / wd) * m * w + (i % wd) * m]).collect();
            o.ev(&format!(
                "{{\"ev\":\"thumb\",\"p\":{},\"flags\":{},\"bytes\":{},\"d\":{},\"res\":{},\"coefs\":{},\"want\":{}}}",
                f.p.json(), bools(&f.flags), ints(&f.payload[..n]), d, dres(&res), ints(&got), ints(&want)
            ));
        }
    }
}

/// images of hundreds of columns and rows, reduced to a few
fn far_reduced(r: &mut Rng, o: &mut Out, thorough: bool) {
    for turn in 0..if thorough { 3000 } else { 250 } {
        let base = params(r, 9, 300);
        let side = |r: &mut Rng| match r.below(3) {
            0 => 60 + r.below(80),
            1 => 100 + r.below(300),
            _ => 400 + r.below(500),
        };
        let mut p = P { w: side(r), h: side(r), layers: 1, channels: 1 + r.below(3), bs: if r.chance(2) { 7 } else { base.bs }, ..base };
        // one side is a few samples only
        let thin = turn % 4 == 1;
        if thin {
            let few = 1 + r.below(6);
            if r.chance(2) {
                p.w = few;
            } else {
                p.h = few;
            }
        }
        if turn % 3 == 0 {
            p.quality = r.pick(&[1024usize, 1023, 512, 513, 520, 700, 900]);
        }
        let slope = (r.below(5), r.below(5), r.below(120));
        let mut img: Vec<u8> = vec![];
        for i in 0..p.w * p.h {
            for c in 0..p.channels {
                let n = if slope.2 == 0 { 0 } else { r.below(slope.2) };
                img.push((((i % p.w) * slope.0 / 3 + (i / p.w) * slope.1 / 3 + c * 60) % 200) as u8 / 2 + n as u8);
            }
        }
        let prog = if p.channels == 3 && r.chance(2) { from_program(&preset(r)) } else { vec![] };
        let f = match build(p, prog, &img) {
            Some(f) => f,
            None => continue,
        };
        let (_, ends) = landmarks(&f);
        o.session(300);
        o.mark(&format!("far reduced {} {}", f.p.json(), prog_json(&f.prog)));
        let header = f.p.header();
        for d in if thin { 1 } else { 4 }..ends.len() {
            let m = 1 << d;
            let area = ((f.p.w + m - 1) / m) * ((f.p.h + m - 1) / m) * f.p.n();
            let n = ends[ends.len() - 1 - d];
            if area > 400 || n > 3000 {
                continue;
            }
            let mut coefs = vec![0i16; area];
            let _ = guard(|| decompress_image_data(&mut coefs, &header, &f.payload[..n], d, false, &f.flags));
            let mut aux = vec![0i16; area];
            let _ = guard(|| gfwx::decompress_aux_data(&f.payload[..n], &header, &f.flags, d, false, &mut aux));
            let mut img = vec![0u8; area];
            let mut bytes = f.prog_bytes.clone();
            bytes.extend_from_slice(&f.payload[..n]);
            let res = guard(|| gfwx::decompress_simple(&bytes, &header, d, false, &mut img));
            o.ev(&format!(
                "{{\"ev\":\"farreduced\",\"p\":{},\"prog\":{},\"bytes\":{},\"d\":{},\"res\":{},\"coefs\":{},\"aux\":{},\"img\":{}}}",
                f.p.json(), prog_json(&f.prog), ints(&f.payload[..n]), d, dres(&res), ints(&coefs), ints(&aux), ints(&img)
            ));
        }
    }
}

/// C04
fn reduced(r: &mut Rng, o: &mut Out, thorough: bool) {
    far(r, o, "reduced", thorough);
    thumbs(r, o, thorough);
    far_reduced(r, o, thorough);
    let budget = if thorough { 2_500_000 } else { 110_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        let f = if turn % 10 == 0 { file(r, 150, 6000) } else { file(r, 40, 900) };
        spent += f.p.total() * 4 + 100;
        let mut s = Sess::start(&f, o, "reduced", f.p.total() as u64 * 4 + 100, r);
        let (_, ends) = landmarks(&f);
        let deepest = ends.len() + 1;
        for d in 0..=deepest.min(14) {
            let needed = if d >= ends.len() { 0 } else { ends[ends.len() - 1 - d] };
            s.cut(d, f.payload.len());
            // nothing behind the needed levels
            s.cut(d, needed);
            // anything behind them
            for n in vec![needed + 1, needed + 4, f.payload.len() + 9] {
                s.cut(d, n);
            }
            {
                let header = f.p.header();
                let mut bytes = f.payload[..needed].to_vec();
                let junk = r.below(120);
                bytes.extend((0..junk).map(|_| r.below(256) as u8));
                let mut aux = vec![0i16; s.area(d)];
                let res = guard(|| decompress_image_data(&mut aux, &header, &bytes, d, false, &f.flags));
                let (test, kept) = s.tested(d, &bytes);
                let id = s.id(aux);
                s.o.ev(&format!(
                    "{{\"ev\":\"cut\",\"d\":{},\"n\":{},\"res\":{},\"id\":{},\"test\":{},\"kept\":{}}}",
                    d, needed, dres(&res), id, test, kept
                ));
            }
            if f.real && (d <= 3 || r.chance(3)) {
                s.simple(d, if r.chance(2) { needed } else { f.payload.len() });
                s.aux(d, needed);
            }
        }
    }
}

/// C05
fn prefix(r: &mut Rng, o: &mut Out, thorough: bool) {
    far(r, o, "prefix", thorough);
    let budget = if thorough { 3_000_000 } else { 100_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        let f = if turn % 9 == 0 { file(r, 110, 3000) } else { file(r, 30, 500) };
        let (marks, ends) = landmarks(&f);
        let total = f.payload.len();
        let every = total <= 700;
        let cost = f.p.total() * 3 + marks.len() * 8 + if every { total } else { 0 };
        spent += cost;
        let mut s = Sess::start(&f, o, "prefix", cost as u64, r);
        let mut near: Vec<usize> = vec![];
        for &m in &marks {
            near.extend_from_slice(&[m.saturating_sub(1), m, m + 1]);
        }
        near.extend((0..10).map(|_| r.below(total + 1)));
        near.sort();
        near.dedup();
        if near.len() > 150 {
            let keep = 150 * 100 / near.len();
            near.retain(|_| r.below(100) < keep);
        }
        let ds = vec![0, 1 + r.below(3), r.below(ends.len() + 1)];
        for (k, &d) in ds.iter().enumerate() {
            if k > 0 && d == 0 {
                continue;
            }
            if k == 0 && every {
                for n in 0..=total {
                    s.cut(d, n);
                }
            } else {
                for &n in &near {
                    s.cut(d, n.min(total));
                }
            }
        }
        for _ in 0..4 {
            let d = r.pick(&ds);
            let n = if r.chance(2) { r.below(total + 1) } else { r.pick(&marks).min(total) };
            s.fetch(d, n);
        }
        s.fetch(0, 0);
        s.fetch(0, 1);
        if f.real {
            for k in 0..4 {
                let d = if k == 0 { 0 } else { r.pick(&ds) };
                let n = r.pick(&near).min(total);
                s.simple(d, n);
                if k % 2 == 0 {
                    s.aux(d, n);
                }
            }
        }
        for n in 0..f.prog_bytes.len().min(9) {
            s.noprogram(n);
        }
    }
}

/// C06
fn testmode(r: &mut Rng, o: &mut Out, thorough: bool) {
    far(r, o, "testmode", thorough);
    let budget = if thorough { 3_000_000 } else { 90_000 };
    let mut spent = 0;
    while spent < budget {
        let f = file(r, 40, 600);
        let (marks, ends) = landmarks(&f);
        let total = f.payload.len();
        let cost = f.p.total() * 3 + 300;
        spent += cost;
        let mut s = Sess::start(&f, o, "testmode", cost as u64, r);
        for k in 0..60 {
            let d = if k % 3 == 0 { 0 } else { r.below(ends.len() + 2) };
            let n = match k % 4 {
                0 => r.below(total + 2),
                1 => total,
                _ => (r.pick(&marks) + r.below(3)).saturating_sub(1),
            };
            s.cut(d, n);
        }
        for k in 0..6 {
            let d = r.below(ends.len() + 1);
            let n = r.below(total + 1);
            if f.real {
                if k % 2 == 0 {
                    s.simple(d, n);
                } else {
                    s.aux(d, n);
                }
            }
        }
        // anything else
        for k in 0..80 {
            let d = if k % 2 == 0 { 0 } else { r.below(ends.len() + 2) };
            let mut b = f.payload.clone();
            match k % 5 {
                0 => {
                    // a block size
                    let at = r.below(8.min(b.len().max(1)));
                    if at < b.len() {
                        b[at] = r.below(6) as u8;
                    }
                }
                1 => {
                    for _ in 0..1 + r.below(4) {
                        let at = r.below(b.len().max(1));
                        b[at] ^= 1 << r.below(8);
                    }
                }
                2 => b = (0..r.below(300)).map(|_| r.below(256) as u8).collect(),
                3 => {
                    let k = 1 + r.below(3);
                    b = (0..r.below(300)).map(|i| if i % 4 == 0 { r.below(k) as u8 } else { 0 }).collect()
                }
                _ => {
                    let at = r.below(b.len().max(1));
                    b[at] ^= 255;
                    b.truncate(r.below(b.len() + 1));
                }
            }
            s.any(d, &b);
            if k % 4 == 0 {
                let mut c = f.prog_bytes.clone();
                c.extend_from_slice(&b);
                s.any_simple(d, &c);
                s.any_simple(d, &b);
            }
        }
        for n in 0..f.prog_bytes.len().min(6) {
            s.noprogram(n);
        }
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let mut o = Out::new(&a.out, a.shards);
    match a.topic.as_str() {
        "reduced" => reduced(&mut r, &mut o, a.thorough),
        "prefix" => prefix(&mut r, &mut o, a.thorough),
        "testmode" => testmode(&mut r, &mut o, a.thorough),
        t => panic!("no topic {}", t),
    }
    println!("events {}", o.events);
    o.finish();
}
