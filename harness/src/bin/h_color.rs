//! T01: color programs as bytes; T02: color transforms; T03: planar and interleaved conversion.
use gfwx::{interleaved_to_planar, planar_to_interleaved, ColorTransformProgram};
use gvharness::codec::*;
use gvharness::*;

fn ok<T>(r: &Option<T>) -> &'static str {
    if r.is_some() {
        "[\"ok\"]"
    } else {
        "[\"panic\"]"
    }
}

fn tame(words: &[u8]) -> bool {
    let mut run = 0;
    for w in words.chunks(4) {
        for &b in w.iter().rev() {
            for k in (0..8).rev() {
                if b >> k & 1 == 0 {
                    run += 1;
                    if run >= 180 {
                        return false;
                    }
                } else {
                    run = 0;
                }
            }
        }
    }
    true
}

/// hands out few bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn read(bytes: &[u8], n: usize, chunk: usize) -> (String, String, usize, Vec<bool>, Option<ColorTransformProgram>) {
    let mut flags = vec![false; n];
    let mut s = Slow(bytes, chunk);
    let r = guard(|| ColorTransformProgram::decode(&mut s, &mut flags));
    let used = bytes.len() - s.0.len();
    match r {
        None => ("[\"panic\"]".into(), "[]".into(), used, flags, None),
        Some(Err(_)) => ("[\"err\"]".into(), "[]".into(), used, flags, None),
        Some(Ok(p)) => ("[\"ok\"]".into(), prog_json(&from_program(&p)), used, flags, Some(p)),
    }
}

fn number(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.range(-3, 3),
        5 => {
            // all of 32 bits, but the one without an absolute value
            let m = (1i64 << r.below(32)) - 1;
            let x = r.range(-m, m);
            r.pick(&[m, -m, x])
        }
        1 => r.range(-40, 40),
        2 => {
            let m = 1i64 << r.below(24);
            r.range(-m, m)
        }
        3 => r.range(-32768, 32767),
        _ => {
            let m = 1i64 << r.below(16);
            r.pick(&[m, -m, m - 1, 1 - m])
        }
    }
}

fn any_program(r: &mut Rng, n: usize) -> Vec<T> {
    let k = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 1 + r.below(20),
        _ if r.below(200) == 0 => 250 + r.below(30),
        _ => 1 + r.below(5),
    };
    let few = r.chance(2) && n < 1000;
    (0..if n < 1000 { k } else { k.max(2) })
        .map(|_| {
            let ch = |r: &mut Rng| if few { r.below(n.min(4)) } else if r.chance(4) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
            let m = r.pick(&[0usize, 1, 2, 3, 12]);
            let fs = if r.below(400) == 0 { 257 + r.below(40) } else { r.below(m + 1) };
            T {
                dest: ch(r),
                factors: (0..fs).map(|_| (ch(r), number(r))).collect(),
                denom: match r.below(4) {
                    0 => 1,
                    1 => r.range(1, 16),
                    2 => r.pick(&[2i64, 4, 8, 32767, 32766, 16384, 255, 256]),
                    _ => r.range(1, 32767),
                },
                chroma: r.chance(2),
            }
        })
        .collect()
}

fn codec(r: &mut Rng, o: &mut Out, thorough: bool) {
    for (name, p) in &[
        ("yuv444_to_yuv444", ColorTransformProgram::yuv444_to_yuv444()),
        ("rgb_to_yuv", ColorTransformProgram::rgb_to_yuv()),
        ("bgr_to_a710", ColorTransformProgram::bgr_to_a710()),
        ("rgb_to_a710", ColorTransformProgram::rgb_to_a710()),
    ] {
        o.session(1);
        o.ev(&format!("{{\"ev\":\"preset\",\"name\":\"{}\",\"prog\":{}}}", name, prog_json(&from_program(p))));
    }
    let turns = if thorough { 25_000 } else { 1500 };
    for turn in 0..turns {
        let n = if turn % 100 == 0 { [65535usize, 70_000, 4096, 60_000, 140_000, 300][turn / 100 % 6] } else { r.pick(&[1usize, 2, 3, 3, 4, 5, 9, 20, 300]) };
        let t = any_program(r, n);
        let prog = program(&t);
        let probe = n.min(6);
        let changes: Vec<bool> = (0..probe).map(|c| prog.is_channel_has_transform(c)).collect();
        o.mark(&format!("program {} {}", n, prog_json(&t)));
        let mut bytes = vec![];
        let r0 = guard(|| prog.encode(n, &mut bytes));
        o.session(40 + n as u64 / 20 + bytes.len() as u64 * 2);
        o.ev(&format!("{{\"ev\":\"program\",\"n\":{},\"prog\":{},\"changes\":{}}}", n, prog_json(&t), bools(&changes)));
        let show = |o: &mut Out, res: &Option<std::io::Result<Vec<bool>>>, room: i64, bytes: &[u8]| {
            let (a, f) = match res {
                None => ("[\"panic\"]", vec![]),
                Some(Err(_)) => ("[\"err\",\"io\"]", vec![]),
                Some(Ok(f)) => ("[\"ok\"]", f.clone()),
            };
            o.ev(&format!("{{\"ev\":\"write\",\"room\":{},\"res\":{},\"bytes\":{},\"flags\":{}}}", room, a, ints(bytes), bools(&f)));
        };
        show(o, &r0, -1, &bytes);
        // a sink of limited size
        if turn % 3 == 0 {
            for _ in 0..3 {
                let room = match r.below(3) {
                    0 => bytes.len() + r.below(6),
                    1 => bytes.len().saturating_sub(1 + r.below(4)),
                    _ => r.below(bytes.len() + 1),
                };
                let mut sink = vec![0u8; room];
                let mut left: &mut [u8] = &mut sink;
                let res = guard(|| prog.encode(n, &mut left));
                let used = room - left.len();
                show(o, &res, room as i64, &sink[..used]);
            }
        }
        // read it back from within a stream
        let mut src = bytes.clone();
        let more = r.below(12);
        src.extend((0..more).map(|_| r.below(256) as u8));
        let chunk = r.pick(&[1usize, 3, 4, 1000]);
        let (res, pj, used, flags, p2) = read(&src, n, chunk);
        let equal = p2.map_or(false, |p| p == prog);
        o.ev(&format!(
            "{{\"ev\":\"readback\",\"n\":{},\"bytes\":{},\"res\":{},\"prog\":{},\"equal\":{},\"used\":{},\"flags\":{}}}",
            n, ints(&src), res, pj, equal, used, bools(&flags)
        ));
        // cut off, for fewer channels, damaged
        if n <= 300 {
            for variant in 0..4 {
                let mut b = bytes.clone();
                let mut m = n;
                match variant {
                    0 => {
                        let k = r.below(b.len());
                        b.truncate(k);
                    }
                    1 => m = 1 + r.below(n),
                    2 => {
                        let k = r.below(b.len());
                        b[k] ^= 1 << r.below(8);
                    }
                    _ => {
                        // other words
                        for x in b.iter_mut() {
                            if r.chance(3) {
                                *x = r.below(256) as u8;
                            }
                        }
                    }
                }
                if !tame(&b) && variant > 1 {
                    continue;
                }
                let (res, pj, used, flags, _) = read(&b, m, 1000);
                o.ev(&format!(
                    "{{\"ev\":\"read\",\"n\":{},\"bytes\":{},\"res\":{},\"prog\":{},\"used\":{},\"flags\":{}}}",
                    m, ints(&b), res, pj, used, bools(&flags)
                ));
            }
        }
    }
    // programs the reader has to refuse although they are well formed
    for _ in 0..(if thorough { 4000 } else { 400 }) {
        let n = 1 + r.below(5);
        let mut t = any_program(r, n + 3);
        for x in t.iter_mut() {
            if r.chance(6) {
                x.denom = r.pick(&[32768i64, 40000, 65536, 65537, 1 << 20, 98304]);
            }
        }
        let mut b = vec![];
        o.mark(&format!("refused {}", prog_json(&t)));
        if guard(|| program(&t).encode(n + 3, &mut b)).is_none() {
            continue;
        }
        let (res, pj, used, flags, _) = read(&b, n, 1000);
        o.session(30 + b.len() as u64 * 2);
        o.ev(&format!(
            "{{\"ev\":\"read\",\"n\":{},\"bytes\":{},\"res\":{},\"prog\":{},\"used\":{},\"flags\":{}}}",
            n, ints(&b), res, pj, used, bools(&flags)
        ));
    }
}

/// would undoing leave 16 bits
fn undo_inside(t: &[T], planes: &[Vec<i64>]) -> bool {
    let mut cur = planes.to_vec();
    for x in t.iter().rev() {
        for i in 0..cur[0].len() {
            let mut acc = 0i64;
            for (c, f) in &x.factors {
                let m = cur[*c][i] * f;
                acc += m;
                if m.abs() > 32767 || acc.abs() > 32767 {
                    return false;
                }
            }
            let d = match x.denom {
                2 => acc >> 1,
                4 => acc >> 2,
                8 => acc >> 3,
                d => acc / d,
            };
            cur[x.dest][i] -= d;
            if cur[x.dest][i].abs() > 32767 {
                return false;
            }
        }
    }
    true
}

const GUARD: usize = 7;

fn transforms(r: &mut Rng, o: &mut Out, thorough: bool) {
    let budget = if thorough { 3_000_000 } else { 160_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        let mut p = params(r, 9, if turn % 30 == 0 { 1500 } else { 220 });
        p.w = p.w.min(40);
        if turn % 25 == 7 {
            let many = many(r);
            p = P { w: 1 + r.below(3), h: 1, layers: many.0, channels: many.1, ..p };
        }
        if r.chance(3) {
            p.quality = 1024;
        }
        let n = p.n();
        let size = p.size();
        spent += p.total() + 30;
        // signed samples too
        let wide = turn % 4 == 0;
        // faint images leave room for large factors
        let faint = if turn % 5 == 2 { 1 + r.below(6) as i64 } else { 0 };
        if faint > 0 && !r.chance(4) {
            p.quality = 1024;
        }
        let header = p.header();
        let img: Vec<i16> = if faint > 0 {
            (0..p.total()).map(|_| r.range(0, faint) as i16).collect()
        } else if wide {
            (0..p.total()).map(|_| r.range(0, 255) as i16).collect()
        } else {
            samples(r, p.w, p.h, n).into_iter().map(i16::from).collect()
        };
        let planar = r.chance(2);
        let raw: Vec<Vec<i64>> = (0..n)
            .map(|c| {
                (0..size)
                    .map(|i| {
                        let k = if planar { c * size + i } else { (c / p.channels) * size * p.channels + c % p.channels + i * p.channels };
                        i64::from(img[k]) * p.boost()
                    })
                    .collect()
            })
            .collect();
        let mut t = vec![];
        for _ in 0..if faint > 0 { 40 } else { 8 } {
            t = match r.below(6) {
                0 => vec![],
                1 if n >= 3 => from_program(&preset(r)),
                2 => {
                    // repeated destinations
                    let mut x = custom(r, n, true);
                    let y = custom(r, n, true);
                    x.extend(y);
                    x
                }
                _ => {
                    let wild = r.chance(2);
                    let mut x = custom(r, n, wild);
                    if r.chance(3) {
                        for z in x.iter_mut() {
                            for f in z.factors.iter_mut() {
                                f.1 *= r.range(1, 20);
                            }
                            z.denom = (z.denom * r.pick(&[1i64, 2, 10, 1000])).min(32767);
                        }
                    }
                    x
                }
            };
            if faint > 0 {
                for z in t.iter_mut() {
                    for f in z.factors.iter_mut() {
                        if r.chance(2) {
                            f.1 = r.range(-16_000, 16_000) / (1 + r.below(90) as i64);
                        }
                    }
                }
            }
            if stays_inside(&t, &raw, 32767) {
                break;
            }
            t = vec![];
        }
        let prog = program(&t);
        o.mark(&format!("transform {} {}", p.json(), prog_json(&t)));
        let mut aux = vec![0i16; p.total() + GUARD];
        for x in &mut aux[p.total()..] {
            *x = 4711;
        }
        let bytes: Vec<u8> = img.iter().map(|&x| x as u8).collect();
        let res = guard(|| {
            if wide {
                if planar {
                    prog.transform(&img, &header, &mut aux)
                } else {
                    prog.transform_and_to_planar(&img, &header, &mut aux)
                }
            } else if planar {
                prog.transform(&bytes, &header, &mut aux)
            } else {
                prog.transform_and_to_planar(&bytes, &header, &mut aux)
            }
        });
        let behind = aux[p.total()..].iter().all(|&x| x == 4711);
        aux.truncate(p.total());
        o.session(p.total() as u64 + 30);
        o.ev(&format!(
            "{{\"ev\":\"image\",\"layers\":{},\"ch\":{},\"size\":{},\"quality\":{},\"planar\":{},\"wide\":{},\"prog\":{},\"img\":{}}}",
            p.layers, p.channels, size, p.quality, planar, wide, prog_json(&t), ints(&img)
        ));
        o.ev(&format!("{{\"ev\":\"forward\",\"res\":{},\"behind\":{},\"aux\":{}}}", ok(&res), behind, ints(&aux)));
        let planes: Vec<Vec<i64>> = aux.chunks(size).map(|c| c.iter().map(|&x| i64::from(x)).collect()).collect();
        if undo_inside(&t, &planes) {
            let (res, behind, out) = undo(r, &prog, &header, aux.clone(), size, planar, wide);
            o.ev(&format!("{{\"ev\":\"backward\",\"res\":{},\"behind\":{},\"img\":{}}}", res, behind, out));
        }
        // planes of another size and origin
        let size2 = 1 + r.below(size + 4);
        let bound = r.pick(&[255i64, 2040, 2040, 4000]);
        let aux2: Vec<i16> = (0..size2 * n).map(|_| r.range(-bound, bound) as i16).collect();
        let planes: Vec<Vec<i64>> = aux2.chunks(size2).map(|c| c.iter().map(|&x| i64::from(x)).collect()).collect();
        if undo_inside(&t, &planes) {
            o.ev(&format!(
                "{{\"ev\":\"planes\",\"layers\":{},\"ch\":{},\"size\":{},\"quality\":{},\"planar\":{},\"prog\":{},\"aux\":{}}}",
                p.layers, p.channels, size2, p.quality, planar, prog_json(&t), ints(&aux2)
            ));
            let (res, behind, out) = undo(r, &prog, &header, aux2, size2, planar, wide);
            o.ev(&format!("{{\"ev\":\"undo\",\"res\":{},\"behind\":{},\"img\":{}}}", res, behind, out));
        }
    }
}

fn undo(r: &mut Rng, prog: &ColorTransformProgram, header: &gfwx::Header, mut aux: Vec<i16>, size: usize, planar: bool, wide: bool) -> (&'static str, bool, String) {
    let n = aux.len();
    if wide {
        let mut out = vec![r.range(-9, 300) as i16; n];
        out.extend(&[1234i16; GUARD]);
        let res = guard(|| {
            if planar {
                prog.detransform(&mut aux, header, size, &mut out)
            } else {
                prog.detransform_and_to_interleaved(&mut aux, header, size, &mut out)
            }
        });
        let behind = out[n..].iter().all(|&x| x == 1234);
        (ok(&res), behind, ints(&out[..n]))
    } else {
        let mut out = vec![r.below(256) as u8; n];
        out.extend(&[77u8; GUARD]);
        let res = guard(|| {
            if planar {
                prog.detransform(&mut aux, header, size, &mut out)
            } else {
                prog.detransform_and_to_interleaved(&mut aux, header, size, &mut out)
            }
        });
        let behind = out[n..].iter().all(|&x| x == 77);
        (ok(&res), behind, ints(&out[..n]))
    }
}

fn conversions(r: &mut Rng, o: &mut Out, thorough: bool) {
    let mut vast = false;
    let budget = if thorough { 3_000_000 } else { 160_000 };
    let mut spent = 0;
    while spent < budget {
        let (mut ch, mut size) = (1 + r.below(7), dim(r, 60));
        if r.below(40) == 0 {
            ch = r.pick(&[8, 9, 16, 17, 31, 255, 256, 257, 300]);
            size = 1 + r.below(3);
        }
        if spent > budget / 2 && !vast {
            // more than 16 bits count
            vast = true;
            ch = 1 + r.below(2);
            size = 65_536 + r.below(2000);
        }
        let mut len = size * ch;
        if r.chance(6) {
            len += r.below(ch);
        }
        spent += 2 * len.min(5000) + 20;
        let mut skip: Vec<usize> = (0..ch).filter(|_| r.chance(3)).collect();
        match r.below(8) {
            0 => skip = vec![],
            1 => skip = (0..ch).collect(),
            2 => skip.push(ch + r.below(3)),
            3 if !skip.is_empty() => {
                let k = skip[0];
                skip.push(k)
            }
            4 => skip.reverse(),
            _ => {}
        }
        let kept = (0..ch).filter(|c| !skip.contains(c)).count();
        let boost = r.pick(&[1i64, 8, 8, 1, 2, 3, 7, 16, 127]);
        let wide = r.chance(3);
        let img: Vec<i16> = if wide {
            let m = 32767 / boost;
            let m = r.pick(&[255, m, 255]).min(m);
            (0..len).map(|_| r.range(-m, m) as i16).collect()
        } else {
            samples(r, len, 1, 1).into_iter().map(i16::from).collect()
        };
        let old: Vec<i16> = (0..(len / ch) * kept + r.below(5)).map(|_| r.range(-5000, 5000) as i16).collect();
        let mut out = old.clone();
        o.mark(&format!("split ch {} len {} skip {:?} boost {}", ch, len, skip, boost));
        let bytes: Vec<u8> = img.iter().map(|&x| x as u8).collect();
        let res = guard(|| {
            if wide {
                interleaved_to_planar(&img, ch, boost as i16, &mut out, &skip)
            } else {
                interleaved_to_planar(&bytes, ch, boost as i16, &mut out, &skip)
            }
        });
        o.session(len as u64 * 2 + 20);
        o.ev(&format!(
            "{{\"ev\":\"split\",\"ch\":{},\"boost\":{},\"skip\":{},\"wide\":{},\"img\":{},\"old\":{},\"res\":{},\"out\":{}}}",
            ch, boost, idx(&skip), wide, ints(&img), ints(&old), ok(&res), ints(&out)
        ));
        let merge = |planes: &[i16], old: &[i16]| {
            if wide {
                let mut v = old.to_vec();
                let res = guard(|| planar_to_interleaved(planes, ch, boost as i16, &mut v, &skip));
                (ok(&res), ints(&v))
            } else {
                let mut v: Vec<u8> = old.iter().map(|&x| x as u8).collect();
                let res = guard(|| planar_to_interleaved(planes, ch, boost as i16, &mut v, &skip));
                (ok(&res), ints(&v))
            }
        };
        if img.iter().all(|&x| x >= 0 && x <= 255) {
            let old2: Vec<i16> = (0..len).map(|_| r.below(256) as i16).collect();
            let (res, v) = merge(&out, &old2);
            o.ev(&format!("{{\"ev\":\"round\",\"planes\":{},\"old\":{},\"res\":{},\"out\":{}}}", ints(&out), ints(&old2), res, v));
        }
        let bound = r.pick(&[255 * boost, 2100, 32767, 300]).min(32767);
        let planes: Vec<i16> = (0..(len / ch) * kept + r.below(3)).map(|_| r.range(-bound / 3, bound) as i16).collect();
        let old2: Vec<i16> = (0..len).map(|_| r.below(256) as i16).collect();
        let (res, v) = merge(&planes, &old2);
        o.ev(&format!(
            "{{\"ev\":\"merge\",\"ch\":{},\"boost\":{},\"skip\":{},\"planes\":{},\"old\":{},\"res\":{},\"out\":{}}}",
            ch, boost, idx(&skip), ints(&planes), ints(&old2), res, v
        ));
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed ^ 0x5151);
    let mut o = Out::new(&a.out, a.shards);
    match a.topic.as_str() {
        "codec" => codec(&mut r, &mut o, a.thorough),
        "transform" => transforms(&mut r, &mut o, a.thorough),
        _ => conversions(&mut r, &mut o, a.thorough),
    }
    println!("events {}", o.events);
    o.finish();
}
