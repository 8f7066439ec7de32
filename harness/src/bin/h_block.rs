//! E02, S02: the coder of one block, and the blocks of a level against each other.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::encode::{decode, encode};
use gfwx::processing::image::Image;
use gvharness::codec::encoder;
use gvharness::*;
use std::io;
use std::sync::{Condvar, Mutex};

#[derive(Clone)]
struct Lv {
    w: usize,
    h: usize,
    n: usize,
    edge: usize,
    s: usize,
    enc: usize,
}
impl Lv {
    fn count(&self) -> usize {
        ((self.w + self.edge - 1) / self.edge) * ((self.h + self.edge - 1) / self.edge) * self.n
    }
    fn size(&self) -> usize {
        self.w * self.h * self.n
    }
    fn json(&self) -> String {
        format!(
            "{{\"w\":{},\"h\":{},\"n\":{},\"edge\":{},\"s\":{},\"enc\":{}}}",
            self.w, self.h, self.n, self.edge, self.s, self.enc
        )
    }
    fn channel(&self, k: usize) -> usize {
        k / (self.count() / self.n)
    }
    /// cells that exist before this level: coarser ones
    fn coarser(&self, j: usize) -> bool {
        let i = j % (self.w * self.h);
        let (x, y) = (i % self.w, i / self.w);
        x % (2 * self.s) == 0 && y % (2 * self.s) == 0
    }
}

fn any_level(r: &mut Rng, max: usize, most: usize) -> Lv {
    loop {
        let s = 1usize << r.below(5);
        let bs = 2 + r.below(3);
        let v = Lv { w: dim(r, max), h: dim(r, max), n: 1 + r.below(2), edge: s << bs, s, enc: r.below(3) };
        if v.size() <= most {
            return v;
        }
    }
}
fn any_q(r: &mut Rng) -> i32 {
    match r.below(5) {
        0 => 1024,
        1 => r.range(1, 1023) as i32,
        2 => r.range(1, 1024 * 8) as i32,
        3 => r.pick(&[1, 128, 2047, 2048, 1023, 512, 4096, 255, 256]),
        _ => r.range(1, 200) as i32,
    }
}

/// coefficients that make the context of the coder vary
fn image(r: &mut Rng, v: &Lv) -> Vec<i16> {
    coefs(r, v.size())
}

fn enc_one(v: &Lv, img: &mut [i16], k: usize, q: i32, dc: bool, ch: bool) -> (String, Vec<u8>) {
    let mut bytes = vec![];
    let run = guard(|| {
        let c = Image::from_slice(img, (v.w, v.h), v.n).into_chunks_mut(v.edge, v.s).nth(k).expect("a block");
        let mut w = BitsIOWriter::new(&mut bytes);
        encode(&c, &mut w, encoder(v.enc), q, dc, ch)?;
        w.flush_write_word()
    });
    let res = match run {
        None => "[\"panic\"]",
        Some(Err(_)) => "[\"err\"]",
        Some(Ok(())) => "[\"ok\"]",
    };
    (res.to_string(), bytes)
}
fn dec_one(v: &Lv, img: &mut [i16], k: usize, q: i32, dc: bool, ch: bool, bytes: &[u8]) -> (String, usize) {
    let mut src = bytes;
    let run = guard(|| {
        let c = Image::from_slice(img, (v.w, v.h), v.n).into_chunks_mut(v.edge, v.s).nth(k).expect("a block");
        let mut rd = BitsIOReader::new(&mut src);
        decode(c, &mut rd, encoder(v.enc), q, dc, ch)
    });
    let res = match run {
        None => "[\"panic\"]",
        Some(Err(_)) => "[\"err\"]",
        Some(Ok(())) => "[\"ok\"]",
    };
    (res.to_string(), (bytes.len() - src.len()) / 4)
}

/// everything but the coarser coefficients is noise
fn poisoned(r: &mut Rng, v: &Lv, img: &[i16]) -> Vec<i16> {
    let kind = r.below(3);
    (0..img.len())
        .map(|j| {
            if v.coarser(j) {
                img[j]
            } else {
                match kind {
                    0 => 0,
                    1 => r.range(-32767, 32767) as i16,
                    _ => r.pick(&[77i16, -5000, 1, 0, 32767]),
                }
            }
        })
        .collect()
}

/// where a decision of the coder hangs on a difference of one
mod hunt {
    use super::*;

    /// how often a limit was met
    pub struct Met(std::collections::HashMap<u32, u32>);
    impl Met {
        pub fn new() -> Met {
            Met(std::collections::HashMap::new())
        }
        /// one of the candidates, a limit that was met least often first
        fn rarest(&mut self, r: &mut Rng, found: &[(i64, u32)]) -> Option<i64> {
            let seen = |m: &Met, k: u32| m.0.get(&k).cloned().unwrap_or(0);
            let least = found.iter().map(|f| seen(self, f.1)).min()?;
            let best: Vec<(i64, u32)> = found.iter().filter(|f| seen(self, f.1) == least).cloned().collect();
            let f = r.pick(&best);
            *self.0.entry(f.1).or_insert(0) += 1;
            Some(f.0)
        }
    }

    /// the limit of the choice of a code that a context (c0, c1) meets exactly, or misses by one
    fn code(c0: i64, c1: i64, ch: bool, mut hit: impl FnMut(u32)) -> u32 {
        let sq = c0 * c0;
        let mut below = |limit: i64, key: u32| {
            if sq == limit {
                hit(2 * key)
            }
            if sq == limit - 1 {
                hit(2 * key + 1)
            }
            sq < limit
        };
        if below(2 * c1 + if ch { 250 } else { 100 }, ch as u32) {
            0
        } else if below(2 * c1 + 950, 2) {
            1
        } else if below(3 * c1 + 3000, 3) {
            if below(5 * c1 + 400, 4) { 2 } else { 3 }
        } else if below(3 * c1 + 12000, 5) {
            if below(5 * c1 + 3000, 6) { 4 } else { 5 }
        } else if below(4 * c1 + 44000, 7) {
            if below(6 * c1 + 12000, 8) { 6 } else { 7 }
        } else {
            8
        }
    }
    /// the same for the choice of a code for runs
    fn runs(c0: i64, c1: i64, q: i32, mut hit: impl FnMut(u32)) {
        let sq = c0 * c0;
        if q == 1024 {
            if c0 == 1 || c0 == 2 {
                hit(60 + c0 as u32);
            }
        } else if c1 < 6 {
            hit(64 + (c0.min(9) * 6 + c1) as u32);
        } else {
            for d in -2..2 {
                if 2 * sq == 3 * c1 + 48 + d {
                    hit((142 + d) as u32);
                }
                if 2 * sq > 3 * c1 + 48 && 2 * sq == 5 * c1 + 32 + d {
                    hit((152 + d) as u32);
                }
            }
        }
    }

    fn nonzero(r: &mut Rng, a: i64) -> i64 {
        let v = 1 + r.below(a as usize) as i64;
        if r.chance(2) { v } else { -v }
    }

    /// the cells of a block that is alone in its image, in the order of the coder
    pub fn cells(v: &Lv) -> Vec<(usize, usize)> {
        let mut c = vec![];
        for y in (0..v.h).step_by(v.s) {
            let odd = y & v.s != 0;
            let (x0, dx) = if odd { (0, v.s) } else { (v.s, 2 * v.s) };
            for x in (x0..v.w).step_by(dx) {
                c.push((x, y));
            }
        }
        c
    }

    pub fn fast(r: &mut Rng, met: &mut Met, v: &Lv, ch: bool) -> Vec<i16> {
        let mut img = vec![0i16; v.size()];
        let mut c = (0i64, 0i64);
        let mut rc = 0;
        let mut scale = 3;
        for (x, y) in cells(v) {
            if r.chance(12) {
                scale = r.pick(&[1i64, 1, 2, 5, 12, 40, 120, 400, 3000]);
            }
            let next = |s: i64| {
                let t = if rc != 0 && s < 0 { -s - 1 } else { s.abs() };
                (((c.0 * 15 + 7) >> 4) + t, ((c.1 * 15 + 7) >> 4) + t.min(4096) * t.min(4096))
            };
            let mut s = if rc == 0 && r.chance(3) { 0 } else { nonzero(r, scale) };
            if !r.chance(4) {
                let mut found = vec![];
                for t in 1..scale * 4 + 60 {
                    let n = next(t);
                    code(n.0, n.1, ch, |k| found.push((t, k)));
                }
                if scale > 1000 {
                    // where squares are limited
                    let n = ((c.0 * 15 + 7) >> 4, (c.1 * 15 + 7) >> 4);
                    for t in 4095..9000i64 {
                        let with = |m: i64| code(n.0 + t, n.1 + t.min(m) * t.min(m), ch, |_| ());
                        let k = with(4096);
                        if k != with(4095) {
                            found.push((t, 200 + k));
                        }
                        if k != with(4097) {
                            found.push((t, 220 + k));
                        }
                    }
                }
                if let Some(t) = met.rarest(r, &found) {
                    s = t;
                }
            }
            img[y * v.w + x] = s as i16;
            if rc != 0 && s == 0 {
                continue;
            }
            let coded = if rc != 0 && s < 0 { s + 1 } else { s };
            c = next(s);
            if (coded == 0) == (rc == 0) {
                rc = if c.0 < 1 { 4 } else if c.0 < 2 { 3 } else if c.0 < 4 { 2 } else if c.0 < 8 { 1 } else { 0 };
            }
        }
        img
    }

    /// the coefficients a context is made of, with their weights
    pub fn around(v: &Lv, x: usize, y: usize) -> Vec<(usize, i64)> {
        let (s, w, h) = (v.s, v.w, v.h);
        let up = |a: usize, m: usize| {
            let p = (a & !(2 * s)) + (a & s);
            if p >= m { p - 2 * s } else { p }
        };
        let mut c = vec![(up(y, h) * w + up(x, w), 2)];
        let at = |x: usize, y: usize| y * w + x;
        if y & s != 0 && (x | s) < w {
            c.push((at(x | s, y - s), 2));
            if x & s != 0 {
                c.push((at(x - s, y), 2));
            }
        }
        if y >= 2 * s && x >= 2 * s {
            c.extend(&[(at(x, y - 2 * s), 4), (at(x - 2 * s, y), 4), (at(x - 2 * s, y - 2 * s), 2)]);
            if x + 2 * s < w {
                c.push((at(x + 2 * s, y - 2 * s), 2));
            }
            if y >= 4 * s && x >= 4 * s {
                c.extend(&[(at(x, y - 4 * s), 2), (at(x - 4 * s, y), 2), (at(x - 4 * s, y - 4 * s), 1)]);
                if x + 4 * s < w {
                    c.push((at(x + 4 * s, y - 4 * s), 1));
                }
            }
        }
        c
    }

    pub fn contextual(r: &mut Rng, met: &mut Met, v: &Lv, ch: bool, q: i32) -> Vec<i16> {
        let scale = r.pick(&[1i64, 1, 2, 5, 12, 40, 120, 400, 3000]);
        let mut img: Vec<i16> = (0..v.size()).map(|_| nonzero(r, scale) as i16).collect();
        let cells = cells(v);
        if cells.is_empty() {
            return img;
        }
        if r.chance(4) {
            // moments that fill 32 bits
            let a = r.range(2700, 8200);
            for x in img.iter_mut() {
                *x = if r.chance(15) { 0 } else { (a + r.below(40) as i64 - 20) as i16 * if r.chance(2) { 1 } else { -1 } };
            }
            return img;
        }
        // few coefficients: short and long runs, and small moments where they begin and end
        let sparse = r.chance(2);
        if sparse {
            let rare = 2 + r.below(14);
            for x in img.iter_mut() {
                *x = if r.chance(rare) { nonzero(r, 1 + scale.min(3)) as i16 } else { 0 };
            }
            for &(x, y) in cells.iter().take(r.below(8)) {
                img[y * v.w + x] = nonzero(r, 2) as i16;
            }
        }
        for _ in 0..cells.len() * if sparse { 1 } else { 2 } / if sparse { 4 } else { 1 } {
            let (x, y) = r.pick(&cells);
            let near = around(v, x, y);
            let cell = r.pick(&near).0;
            let for_runs = sparse || r.chance(3);
            let (mut count, mut sum, mut sum2, mut weight) = (0, 0, 0, 0);
            for &(j, k) in &near {
                count += k;
                if j == cell {
                    weight += k;
                } else {
                    let a = i64::from(img[j]).abs();
                    sum += a * k;
                    sum2 += a.min(4096) * a.min(4096) * k;
                }
            }
            let mut found = vec![];
            for t in (if for_runs { 0 } else { 1 })..scale * 4 + 60 {
                let with = |top: i64| {
                    let m = t.min(top);
                    (((sum + t * weight) * 16 + count / 2) / count, ((sum2 + m * m * weight) * 16 + count / 2) / count)
                };
                let c = with(4096);
                if for_runs {
                    runs(c.0, c.1, q, |k| found.push((t, k)));
                } else {
                    code(c.0, c.1, ch, |k| found.push((t, 300 + k)));
                    if t > 4095 {
                        let k = code(c.0, c.1, ch, |_| ());
                        for top in &[4095, 4097] {
                            let d = with(*top);
                            if k != code(d.0, d.1, ch, |_| ()) {
                                found.push((t, 500 + 20 * (*top as u32 - 4095) + k));
                            }
                        }
                    }
                }
            }
            img[cell] = match met.rarest(r, &found) {
                Some(t) => t as i16,
                None => continue,
            };
            if for_runs {
                // a zero that may begin a run, and one behind it
                img[y * v.w + x] = if sparse { r.pick(&[0, 1, 2]) } else { 0 };
            }
        }
        img
    }
}

/// blocks for which a slightly different coder would decide differently: both sides of the coder can differ from the
/// format in the same way, and then only the bits show it
mod sense {
    use super::hunt::around;
    use super::*;

    /// the numbers in the decisions of the coder
    #[derive(Clone, PartialEq)]
    pub struct Par {
        clamp: u32,
        weights: [u32; 11],
        half: [i64; 2],
        consts: [i64; 9],
        times: [u32; 8],
        run: [i64; 8],
        fast: [i64; 4],
        decay: [i64; 4],
        wide: bool,
    }
    pub fn format() -> Par {
        Par {
            clamp: 4096,
            weights: [2, 2, 2, 4, 4, 2, 2, 2, 2, 1, 1],
            half: [0, 0],
            consts: [100, 250, 950, 3000, 400, 12000, 3000, 44000, 12000],
            times: [2, 2, 3, 5, 3, 5, 4, 6],
            run: [48, 32, 2, 4, 2, 8, 4, 8],
            fast: [1, 2, 4, 8],
            decay: [15, 7, 15, 7],
            wide: false,
        }
    }
    impl Par {
        /// can the change be seen with this encoder
        pub fn matters(&self, enc: usize) -> bool {
            let f = format();
            if enc == 1 {
                self.weights == f.weights && self.half == f.half && self.run == f.run && !self.wide
            } else {
                self.decay == f.decay && self.fast == f.fast
            }
        }
    }
    pub fn others() -> Vec<Par> {
        let f = format();
        let mut l = vec![];
        let mut add = |change: &dyn Fn(&mut Par)| {
            let mut p = f.clone();
            change(&mut p);
            l.push(p);
        };
        for &c in &[4095, 4097, 4112, 5000, 8192, 32768] {
            add(&|p| p.clamp = c);
        }
        for &d in &[-1i64, 1] {
            for k in 0..9 {
                add(&|p| p.consts[k] += d);
            }
            for k in 0..8 {
                add(&|p| p.run[k] += d);
                add(&|p| p.times[k] = (i64::from(p.times[k]) + d) as u32);
            }
            for k in 0..11 {
                add(&|p| p.weights[k] = (i64::from(p.weights[k]) + d) as u32);
            }
            for k in 0..2 {
                add(&|p| p.half[k] += d);
            }
            for k in 0..4 {
                add(&|p| p.decay[k] += d);
                add(&|p| p.fast[k] += d);
            }
        }
        add(&|p| p.wide = true);
        l
    }

    /// what the coder decides: code and run code of each cell
    pub fn decisions(f: &Par, v: &Lv, order: &[(usize, usize)], img: &[i16], q: i32, ch: bool) -> Vec<(u8, u8)> {
        let mut out = vec![];
        let (mut c, mut rc) = ((0u32, 0u32), 0u8);
        for &(x, y) in order {
            let s = i32::from(img[y * v.w + x]);
            if rc != 0 && s == 0 {
                continue;
            }
            let s = if rc != 0 && s < 0 { s + 1 } else { s };
            if v.enc == 2 {
                let (mut count, mut sum, mut sum2, mut sum64) = (0u32, 0u32, 0u32, 0u64);
                let near = around(v, x, y);
                for (k, &(j, _)) in near.iter().enumerate() {
                    let w = f.weights[slot(v, x, y, k)];
                    let a = i32::from(img[j]).abs() as u32;
                    let m = a.min(f.clamp);
                    sum = sum.wrapping_add(a * w);
                    sum2 = sum2.wrapping_add((m * m).wrapping_mul(w));
                    sum64 += u64::from(m) * u64::from(m) * u64::from(w);
                    count += w;
                }
                let half = |k: usize| (i64::from(count / 2) + f.half[k]).max(0) as u32;
                c.0 = (sum.wrapping_mul(16)).wrapping_add(half(0)) / count;
                c.1 = if f.wide {
                    ((sum64 * 16 + u64::from(half(1))) / u64::from(count)) as u32
                } else {
                    sum2.wrapping_mul(16).wrapping_add(half(1)) / count
                };
            }
            let sq = c.0.wrapping_mul(c.0);
            let lim = |t: usize, k: usize| f.times[t].wrapping_mul(c.1).wrapping_add(f.consts[k] as u32);
            let code = if sq < lim(0, ch as usize) {
                0
            } else if sq < lim(1, 2) {
                1
            } else if sq < lim(2, 3) {
                if sq < lim(3, 4) { 2 } else { 3 }
            } else if sq < lim(4, 5) {
                if sq < lim(5, 6) { 4 } else { 5 }
            } else if sq < lim(6, 7) {
                if sq < lim(7, 8) { 6 } else { 7 }
            } else {
                8
            };
            if v.enc == 1 {
                let t = s.abs() as u32;
                let m = t.min(f.clamp);
                c.0 = ((c.0.wrapping_mul(f.decay[0] as u32).wrapping_add(f.decay[1] as u32)) >> 4).wrapping_add(t);
                c.1 = ((c.1.wrapping_mul(f.decay[2] as u32).wrapping_add(f.decay[3] as u32)) >> 4).wrapping_add(m.wrapping_mul(m));
            }
            if (s == 0) == (rc == 0) {
                let below = |x: u32, k: usize| i64::from(x) < f.run[k];
                rc = if v.enc == 1 {
                    match f.fast.iter().position(|&l| i64::from(c.0) < l) {
                        Some(k) => 4 - k as u8,
                        None => 0,
                    }
                } else if q == 1024 {
                    if below(c.0, 2) { 1 } else { 0 }
                } else if below(c.0, 3) && below(c.1, 4) {
                    4
                } else if below(c.0, 7) && below(c.1, 6) {
                    3
                } else if sq.wrapping_mul(2) < c.1.wrapping_mul(3).wrapping_add(f.run[0] as u32) {
                    2
                } else if sq.wrapping_mul(2) < c.1.wrapping_mul(5).wrapping_add(f.run[1] as u32) {
                    1
                } else {
                    0
                };
            }
            out.push((code, rc));
        }
        out
    }
    /// which of the eleven neighbours stands at place k of the list
    fn slot(v: &Lv, x: usize, y: usize, k: usize) -> usize {
        let s = v.s;
        let first = if y & s != 0 && (x | s) < v.w { if x & s != 0 { 3 } else { 2 } } else { 1 };
        if k < first {
            return k;
        }
        let inner = if x + 2 * s < v.w { 4 } else { 3 };
        let k = k - first;
        if k < inner { 3 + k } else { 7 + k - inner }
    }

    pub fn candidate(r: &mut Rng, v: &Lv) -> Vec<i16> {
        let top = r.pick(&[2i64, 3, 6, 12, 25, 50, 120, 300, 900, 3000, 7000, 12000, 30000]);
        let (rare, small) = (1 + r.below(14), r.pick(&[0, 0, 1, 2, top / 8, top / 3]));
        let narrow = r.chance(3);
        (0..v.size())
            .map(|_| {
                let a = if r.chance(rare) { if narrow { top - r.below(9).min(top as usize) as i64 } else { r.range(1, top) } } else { r.range(0, small) };
                a as i16 * if r.chance(2) { 1 } else { -1 }
            })
            .collect()
    }
}

/// lines of millions of cells and the steps that belong to them
fn vast(r: &mut Rng, o: &mut Out, thorough: bool) {
    for turn in 0..if thorough { 300 } else { 40 } {
        let positions = turn % 4 != 0;
        let e = if turn % 3 == 0 { 21 } else { 11 + r.below(11) };
        let s = 1usize << e;
        let most = ((3usize << 20) / s).min(40);
        let len = s * r.below(most + 1) + 1 + if r.chance(2) { r.below(s) } else { 0 };
        let len = len.max(s + 1);
        let mut v = Lv { w: len, h: 1, n: 1, edge: s << 2, s, enc: if turn % 3 == 2 { r.below(3) } else { 0 } };
        if r.chance(2) {
            v = Lv { w: 1, h: len, ..v };
        }
        let top = r.pick(&[2i64, 20, 300, 5000]);
        let mut img = vec![];
        if !positions {
            img = vec![0i16; v.size()];
            for x in img.iter_mut().step_by(s) {
                if !r.chance(3) {
                    *x = r.range(-top, top) as i16;
                }
            }
        }
        if positions {
            // positions beyond 16 bits, with something else 65536 columns or rows before
            let s = 1 << r.below(2);
            let (long, short, edge) = (65536 * (1 + r.below(2)) + 30 + r.below(60), 1 + r.below(13 * s), s << (2 + r.below(4)));
            v = Lv { w: long, h: short, n: 1, edge, s, enc: if r.chance(3) { r.below(2) } else { 2 } };
            let tall = r.chance(2);
            if tall {
                v = Lv { w: short, h: long, ..v };
            }
            img = vec![0i16; v.size()];
            for a in 0..long {
                if a % 65536 < 60 || long - a < 100 {
                    for b in 0..short {
                        let j = if tall { a * short + b } else { b * long + a };
                        let top = if a + 200 < long { 9000 } else { top };
                        img[j] = if r.chance(4) { 0 } else { r.range(-top, top) as i16 };
                    }
                }
            }
        }
        // more than 65536 zeros in one run
        let long = turn % 13 == 5;
        if long {
            let (w, h) = (300 + r.below(60), 310 + r.below(60));
            v = Lv { w, h, n: 1, edge: 512, s: 1, enc: turn / 13 % 3 };
            img = vec![0i16; v.size()];
            // a few at the start, so that the coder gets to runs, and a few at the end
            for j in (0..r.below(40)).chain(v.size() - 1 - r.below(300)..v.size()) {
                if r.chance(3) {
                    img[j] = r.range(-top, top) as i16;
                }
            }
        }
        let positions = positions || long;
        let cells = |img: &[i16]| {
            let l: Vec<String> = img.iter().enumerate().filter(|(_, x)| **x != 0).map(|(j, x)| format!("[{},{}]", j, x)).collect();
            list(&l)
        };
        o.session(300);
        o.mark(&format!("vast {}", v.json()));
        o.ev(&format!("{{\"ev\":\"vast\",\"v\":{},\"cells\":{}}}", v.json(), cells(&img)));
        let last = v.count() - 1;
        let blocks = if long { vec![0] } else if positions { vec![last, last - last.min(1 + r.below(2))] } else if last > 0 { vec![0, last] } else { vec![0] };
        for k in blocks {
            let qs = if long { vec![1 + r.below(1024) as i32] } else if positions { vec![any_q(r)] } else { vec![1024, 1023, 1, any_q(r)] };
            for q in qs {
                let (dc, ch) = (r.chance(2), r.chance(2));
                let mut im = img.clone();
                let (res, bytes) = enc_one(&v, &mut im, k, q, dc, ch);
                o.ev(&format!(
                    "{{\"ev\":\"vastenc\",\"k\":{},\"q\":{},\"dc\":{},\"ch\":{},\"res\":{},\"bytes\":{}}}",
                    k, q, dc, ch, res, ints(&bytes)
                ));
                let start: Vec<i16> = (0..img.len()).map(|j| if v.coarser(j) { img[j] } else if img[j] != 0 && r.chance(2) { 77 } else { 0 }).collect();
                let mut out = start.clone();
                let (res, words) = dec_one(&v, &mut out, k, q, dc, ch, &bytes);
                o.ev(&format!(
                    "{{\"ev\":\"vastdec\",\"k\":{},\"q\":{},\"dc\":{},\"ch\":{},\"start\":{},\"bytes\":{},\"res\":{},\"words\":{},\"cells\":{}}}",
                    k, q, dc, ch, cells(&start), ints(&bytes), res, words, cells(&out)
                ));
            }
        }
    }
}

fn sensitive(r: &mut Rng, o: &mut Out, thorough: bool) {
    let format = sense::format();
    let others = sense::others();
    let mut met = vec![0; 2 * others.len()];
    let goal = if thorough { 12 } else { 2 };
    for turn in 0..if thorough { 400_000 } else { 30_000 } {
        let s = if r.chance(6) { 2 } else { 1 };
        let enc = if turn % 3 == 0 { 1 } else { 2 };
        let v = Lv { w: (5 + r.below(12)) * s, h: (5 + r.below(12)) * s, n: 1, edge: s << 4, s, enc };
        let q = if enc == 2 && r.chance(4) { 1024 } else { any_q(r) };
        let ch = r.chance(2);
        let img = sense::candidate(r, &v);
        let order = hunt::cells(&v);
        let here = sense::decisions(&format, &v, &order, &img, q, ch);
        let mut new = false;
        for (k, f) in others.iter().enumerate() {
            let k = 2 * k + enc - 1;
            if met[k] < goal && f.matters(enc) && sense::decisions(f, &v, &order, &img, q, ch) != here {
                met[k] += 1;
                new = true;
            }
        }
        if new {
            let mut im = img.clone();
            let (res, bytes) = enc_one(&v, &mut im, 0, q, false, ch);
            o.session(v.size() as u64 * 2 + 30);
            o.mark(&format!("sensitive {}", v.json()));
            o.ev(&format!("{{\"ev\":\"level\",\"v\":{},\"img\":{}}}", v.json(), ints(&img)));
            o.ev(&format!(
                "{{\"ev\":\"enc\",\"k\":0,\"q\":{},\"dc\":false,\"ch\":{},\"res\":{},\"bytes\":{}}}",
                q, ch, res, ints(&bytes)
            ));
            let start = poisoned(r, &v, &img);
            let mut out = start.clone();
            let (res, words) = dec_one(&v, &mut out, 0, q, false, ch, &bytes);
            o.ev(&format!(
                "{{\"ev\":\"dec\",\"k\":0,\"q\":{},\"dc\":false,\"ch\":{},\"honest\":true,\"start\":{},\"bytes\":{},\"res\":{},\"words\":{},\"img\":{}}}",
                q, ch, ints(&start), ints(&bytes), res, words, ints(&out)
            ));
        }
    }
    if std::env::var("SHOW").is_ok() {
        eprintln!("not met: {:?}", met.iter().enumerate().filter(|m| *m.1 == 0).map(|m| (m.0 / 2, m.0 % 2)).collect::<Vec<_>>());
    }
}

fn block(r: &mut Rng, o: &mut Out, thorough: bool) {
    sensitive(r, o, thorough);
    vast(r, o, thorough);
    let mut met = hunt::Met::new();
    let budget = if thorough { 3_000_000 } else { 130_000 };
    let mut spent = 0;
    let mut turn = 0;
    while spent < budget {
        turn += 1;
        let mut v = if turn % 6 == 0 { any_level(r, 70, 3000) } else { any_level(r, 26, 500) };
        if turn % 50 == 1 {
            // long lines and steps, for the thresholds of the Turbo run coder and long runs
            let e = r.below(12);
            let len = if e < 6 { 700 } else { 5000 };
            v = Lv { w: if turn % 100 == 1 { len } else { 1 }, h: if turn % 100 == 1 { 1 } else { len }, n: 1, edge: 1 << 13, s: 1 << e, enc: r.below(3) };
        }
        let hunting = turn % 3 == 0 && turn % 50 != 1;
        let hunted = (if r.chance(2) { 1024 } else { any_q(r) }, r.chance(2));
        if hunting {
            let s = 1usize << r.below(3);
            v = Lv { w: 1 + r.below(14 * s), h: 1 + r.below(14 * s), n: 1, edge: s << 4, s, enc: 1 + r.below(2) };
        }
        let img = if hunting {
            if v.enc == 1 { hunt::fast(r, &mut met, &v, hunted.1) } else { hunt::contextual(r, &mut met, &v, hunted.1, hunted.0) }
        } else if turn % 7 == 0 {
            // extremes and their neighbourhood, small numbers of each kind of code
            let top = r.pick(&[4095i64, 4096, 4097, 32767, 300, 20, 8, 3]);
            let rare = 1 + r.below(4);
            (0..v.size()).map(|_| if r.chance(rare) { r.pick(&[top, -top, top - 1, 1 - top, 0]) as i16 } else { r.range(-2, 2) as i16 }).collect()
        } else {
            image(r, &v)
        };
        let mut img = img;
        if !hunting && v.enc != 2 && r.chance(6) {
            // the smallest number there is (contexts cannot be made of it)
            for _ in 0..1 + r.below(5) {
                let j = r.below(img.len());
                img[j] = -32768;
            }
            img[0] = -32768;
        }
        o.session(v.size() as u64 * 3 + 30);
        o.mark(&format!("block {}", v.json()));
        o.ev(&format!("{{\"ev\":\"level\",\"v\":{},\"img\":{}}}", v.json(), ints(&img)));
        let blocks = if v.count() <= 2 { (0..v.count()).collect::<Vec<_>>() } else { (0..2).map(|_| r.below(v.count())).collect() };
        for k in blocks {
            let (q, ch) = if hunting { hunted } else { (any_q(r), r.chance(2)) };
            let dc = r.chance(2);
            let mut im = img.clone();
            let (res, bytes) = enc_one(&v, &mut im, k, q, dc, ch);
            spent += v.size().min(v.edge * v.edge) * 2 / (v.s * v.s).min(16) + v.size() / 4 + 20;
            o.ev(&format!(
                "{{\"ev\":\"enc\",\"k\":{},\"q\":{},\"dc\":{},\"ch\":{},\"res\":{},\"bytes\":{}}}",
                k, q, dc, ch, res, ints(&bytes)
            ));
            let mut dec = |r: &mut Rng, bytes: &[u8], honest: bool, start: Vec<i16>| {
                let mut out = start.clone();
                let (res, words) = dec_one(&v, &mut out, k, q, dc, ch, bytes);
                let _ = r;
                o.ev(&format!(
                    "{{\"ev\":\"dec\",\"k\":{},\"q\":{},\"dc\":{},\"ch\":{},\"honest\":{},\"start\":{},\"bytes\":{},\"res\":{},\"words\":{},\"img\":{}}}",
                    k, q, dc, ch, honest, ints(&start), ints(bytes), res, words, ints(&out)
                ));
            };
            let mut start = poisoned(r, &v, &img);
            if !dc {
                // the first coefficient is there from a coarser level in any case
            } else if r.chance(2) {
                // where the block writes it itself it may hold anything before
                let nx = (v.w + v.edge - 1) / v.edge;
                let ny = (v.h + v.edge - 1) / v.edge;
                let j = v.channel(k) * v.w * v.h + (k / nx % ny) * v.edge * v.w + (k % nx) * v.edge;
                start[j] = r.range(-9999, 9999) as i16;
            }
            dec(r, &bytes, true, start);
            if r.chance(3) {
                let start = poisoned(r, &v, &img);
                let mut cut = bytes.clone();
                cut.truncate(4 * r.below(bytes.len() / 4 + 1));
                dec(r, &cut, false, start);
            }
        }
    }
}

/// lets exactly one of the workers run at a time, changing at every access to its stream
struct Gate {
    m: Mutex<(usize, Vec<bool>, Rng)>,
    c: Condvar,
}
impl Gate {
    fn new(n: usize, seed: u64) -> Gate {
        let mut r = Rng::new(seed);
        let first = r.below(n);
        Gate { m: Mutex::new((first, vec![true; n], r)), c: Condvar::new() }
    }
    fn pass(s: &mut (usize, Vec<bool>, Rng)) {
        let alive: Vec<usize> = (0..s.1.len()).filter(|&k| s.1[k]).collect();
        if !alive.is_empty() {
            s.0 = alive[s.2.below(alive.len())];
        }
    }
    fn enter(&self, k: usize) {
        let mut s = self.m.lock().unwrap();
        while s.0 != k {
            s = self.c.wait(s).unwrap();
        }
    }
    fn step(&self, k: usize) {
        let mut s = self.m.lock().unwrap();
        Gate::pass(&mut s);
        self.c.notify_all();
        while s.0 != k {
            s = self.c.wait(s).unwrap();
        }
    }
    fn leave(&self, k: usize) {
        let mut s = self.m.lock().unwrap();
        s.1[k] = false;
        Gate::pass(&mut s);
        self.c.notify_all();
    }
}
struct GReader<'a, 'b>(BitsIOReader<'a, &'b [u8]>, &'a Gate, usize);
impl BitsReader for GReader<'_, '_> {
    fn get_bits(&mut self, n: u32) -> io::Result<u32> {
        self.1.step(self.2);
        self.0.get_bits(n)
    }
    fn get_zeros(&mut self, n: u32) -> io::Result<u32> {
        self.1.step(self.2);
        self.0.get_zeros(n)
    }
    fn flush_read_word(&mut self) {
        self.0.flush_read_word()
    }
}
struct GWriter<'a>(BitsIOWriter<'a, Vec<u8>>, &'a Gate, usize);
impl BitsWriter for GWriter<'_> {
    fn put_bits(&mut self, x: u32, n: u32) -> io::Result<()> {
        self.1.step(self.2);
        self.0.put_bits(x, n)
    }
    fn flush_write_word(&mut self) -> io::Result<()> {
        self.1.step(self.2);
        self.0.flush_write_word()
    }
}

fn order(r: &mut Rng, o: &mut Out, thorough: bool) {
    let budget = if thorough { 1_500_000 } else { 70_000 };
    let mut spent = 0;
    while spent < budget {
        let v = loop {
            let mut v = any_level(r, 36, 700);
            v.edge = v.s << 2;
            if v.count() >= 2 && v.count() <= 40 {
                break v;
            }
        };
        let n = v.count();
        let img = image(r, &v);
        let first = r.chance(2);
        let base = any_q(r);
        let chq = any_q(r);
        let chroma: Vec<bool> = (0..v.n).map(|_| r.chance(2)).collect();
        let ch: Vec<bool> = (0..n).map(|k| chroma[v.channel(k)]).collect();
        let q: Vec<i64> = (0..n).map(|k| i64::from(if ch[k] { chq } else { base })).collect();
        let per = n / v.n;
        let dc: Vec<bool> = (0..n).map(|k| first && k % per == 0).collect();
        spent += v.size() * 5 + 40;
        o.session(v.size() as u64 * 5 + 40);
        o.mark(&format!("order {}", v.json()));
        o.ev(&format!("{{\"ev\":\"level\",\"v\":{},\"img\":{}}}", v.json(), ints(&img)));

        // all blocks encoded by workers that take turns at every write
        let mut im = img.clone();
        let gate = Gate::new(n, r.next());
        let mut streams: Vec<Vec<u8>> = vec![vec![]; n];
        {
            let gate = &gate;
            let chunks = Image::from_slice(&mut im, (v.w, v.h), v.n).into_chunks_mut(v.edge, v.s);
            std::thread::scope(|sc| {
                for ((k, chunk), out) in chunks.enumerate().zip(streams.iter_mut()) {
                    let (q, dc, ch, e) = (q[k] as i32, dc[k], ch[k], encoder(v.enc));
                    sc.spawn(move || {
                        gate.enter(k);
                        let _ = guard(|| {
                            let mut w = GWriter(BitsIOWriter::new(out), gate, k);
                            encode(&chunk, &mut w, e, q, dc, ch)?;
                            w.flush_write_word()
                        });
                        gate.leave(k);
                    });
                }
            });
        }
        let blocks_json = |b: &[Vec<u8>]| list(&b.iter().map(|x| ints(x)).collect::<Vec<_>>());
        o.ev(&format!(
            "{{\"ev\":\"encall\",\"q\":{},\"dc\":{},\"ch\":{},\"blocks\":{}}}",
            ints(&q), bools(&dc), bools(&ch), blocks_json(&streams)
        ));

        for variant in 0..3 {
            let mut blocks = streams.clone();
            let mut present = vec![true; n];
            if variant >= 1 {
                for k in 0..n {
                    if r.chance(3) {
                        present[k] = false;
                    }
                }
            }
            if variant == 2 {
                let k = r.below(n);
                present[k] = true;
                let len = blocks[k].len();
                if len > 0 {
                    match r.below(2) {
                        0 => {
                            let at = r.below(len);
                            blocks[k][at] ^= 1 << r.below(8);
                        }
                        _ => blocks[k].truncate(r.below(len)),
                    }
                }
            }
            let start = poisoned(r, &v, &img);
            let mut out = start.clone();
            let mut res: Vec<&str> = vec!["ok"; n];
            if r.chance(3) {
                // one after the other in some order
                let mut ord: Vec<usize> = (0..n).collect();
                for k in (1..n).rev() {
                    ord.swap(k, r.below(k + 1));
                }
                for k in ord {
                    if present[k] {
                        let (x, _) = dec_one(&v, &mut out, k, q[k] as i32, dc[k], ch[k], &blocks[k]);
                        res[k] = if x == "[\"ok\"]" { "ok" } else if x == "[\"err\"]" { "err" } else { "panic" };
                    }
                }
            } else {
                let gate = Gate::new(n, r.next());
                let gate = &gate;
                let chunks = Image::from_slice(&mut out, (v.w, v.h), v.n).into_chunks_mut(v.edge, v.s);
                std::thread::scope(|sc| {
                    for (((k, chunk), bytes), res) in chunks.enumerate().zip(blocks.iter()).zip(res.iter_mut()) {
                        let (q, dc, ch, e, here) = (q[k] as i32, dc[k], ch[k], encoder(v.enc), present[k]);
                        sc.spawn(move || {
                            gate.enter(k);
                            if here {
                                let x = guard(|| {
                                    let mut src: &[u8] = bytes;
                                    let mut rd = GReader(BitsIOReader::new(&mut src), gate, k);
                                    decode(chunk, &mut rd, e, q, dc, ch)
                                });
                                *res = match x {
                                    None => "panic",
                                    Some(Err(_)) => "err",
                                    Some(Ok(())) => "ok",
                                };
                            }
                            gate.leave(k);
                        });
                    }
                });
            }
            o.ev(&format!(
                "{{\"ev\":\"decall\",\"q\":{},\"dc\":{},\"ch\":{},\"present\":{},\"start\":{},\"blocks\":{},\"res\":{},\"img\":{}}}",
                ints(&q),
                bools(&dc),
                bools(&ch),
                bools(&present),
                ints(&start),
                blocks_json(&blocks),
                list(&res.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>()),
                ints(&out)
            ));
        }
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let mut o = Out::new(&a.out, a.shards);
    match a.topic.as_str() {
        "block" => block(&mut r, &mut o, a.thorough),
        "order" => order(&mut r, &mut o, a.thorough),
        t => panic!("no topic {}", t),
    }
    println!("events {}", o.events);
    o.finish();
}
