//! S03: the pieces that work is cut into.
use gfwx::processing::image::Image;
use gfwx::processing::*;
use gvharness::*;
use std::sync::Mutex;

fn end(o: &mut Out, v: &[i64]) {
    o.ev(&format!("{{\"ev\":\"end\",\"cells\":{}}}", ints(v)));
}

fn item(o: &mut Out, parts: &[&[i64]]) {
    o.ev(&format!("{{\"ev\":\"item\",\"parts\":{}}}", list(&parts.iter().map(|p| ints(p)).collect::<Vec<_>>())));
}

fn overlapping(o: &mut Out, n: usize, step: usize) {
    let mut v: Vec<i64> = (0..n as i64).collect();
    o.session(n as u64 + 10);
    o.mark(&format!("overlapping {} {}", n, step));
    o.ev(&format!("{{\"ev\":\"cut\",\"kind\":\"overlapping\",\"n\":{},\"step\":{}}}", n, step));
    let r = guard(|| {
        for (l, m, r) in OverlappingChunksIterator::from_slice(&mut v, step).take(n + 3) {
            item(o, &[l, m, r]);
            for x in m.iter_mut() {
                *x += 100_000;
            }
        }
    });
    if r.is_some() {
        end(o, &v);
    } else {
        o.ev("{\"ev\":\"panic\"}");
    }
}

fn double(o: &mut Out, n: usize, step: usize) {
    let mut v: Vec<i64> = (0..n as i64).collect();
    o.session(n as u64 + 10);
    o.mark(&format!("double {} {}", n, step));
    o.ev(&format!("{{\"ev\":\"cut\",\"kind\":\"double\",\"n\":{},\"step\":{}}}", n, step));
    let r = guard(|| {
        for c in DoubleOverlappingChunksIterator::from_slice(&mut v, step).take(n + 3) {
            item(o, &[c.prev_left, c.left, c.middle, c.right, c.next_right]);
            for x in c.middle.iter_mut() {
                *x += 100_000;
            }
        }
    });
    if r.is_some() {
        end(o, &v);
    } else {
        o.ev("{\"ev\":\"panic\"}");
    }
}

fn variable(o: &mut Out, n: usize, sizes: &[usize]) {
    let v: Vec<i64> = (0..n as i64).collect();
    o.session((n + sizes.len()) as u64 + 10);
    o.mark(&format!("variable {} {:?}", n, sizes));
    o.ev(&format!("{{\"ev\":\"cut\",\"kind\":\"variable\",\"n\":{},\"sizes\":{}}}", n, idx(sizes)));
    let r = guard(|| {
        for c in VariableChunksIterator::new(&v, sizes) {
            item(o, &[c]);
        }
    });
    if r.is_some() {
        end(o, &v);
    } else {
        o.ev("{\"ev\":\"panic\"}");
    }
}

fn image(r: &mut Rng, o: &mut Out, w: usize, h: usize, channels: usize, bs: usize, s: usize, looks: usize) {
    let edge = s << bs;
    let n = w * h * channels;
    let mut v: Vec<i64> = (0..n as i64).collect();
    o.mark(&format!("image {}x{}x{} bs {} step {}", w, h, channels, bs, s));
    let chunks: Vec<_> = match guard(|| Image::from_slice(&mut v, (w, h), channels).into_chunks_mut(edge, s).take(n + 2).collect()) {
        Some(c) => c,
        None => {
            o.session(1);
            o.ev("{\"ev\":\"panic\"}");
            return;
        }
    };
    o.session((w * h * looks) as u64 * 3 + 10);
    let b: Vec<String> = chunks
        .iter()
        .map(|c| {
            format!(
                "{{\"x0\":{},\"x1\":{},\"y0\":{},\"y1\":{},\"ch\":{}}}",
                c.x_range.0, c.x_range.1, c.y_range.0, c.y_range.1, c.channel
            )
        })
        .collect();
    o.ev(&format!("{{\"ev\":\"blocks\",\"w\":{},\"h\":{},\"channels\":{},\"edge\":{},\"blocks\":{}}}", w, h, channels, edge, list(&b)));
    let mut chunks = chunks;
    let mut last = 0;
    for _ in 0..looks {
        let k = r.below(chunks.len());
        last = k;
        let c = &mut chunks[k];
        let mut get = vec![];
        let mut set = vec![];
        let mut seen: Vec<i64> = vec![];
        for y in 0..h {
            for x in 0..w {
                let g = guard(|| c[(y, x)]);
                get.push(g.is_some());
                seen.push(g.unwrap_or(-1));
                set.push(guard(|| c[(y, x)] += 0).is_some());
            }
        }
        o.ev(&format!("{{\"ev\":\"access\",\"k\":{},\"step\":{},\"get\":{},\"set\":{},\"seen\":{}}}", k + 1, s, bools(&get), bools(&set), ints(&seen)));
    }
    let _ = last;
}

fn main() {
    quiet_panics();
    let a = args();
    let mut rng = Rng::new(a.seed ^ 0xabc);
    let mut o = Out::new(&a.out, a.shards);
    let r = &mut rng;
    let o = &mut o;
    let t = a.thorough;
    for n in 0..=(if t { 40 } else { 24 }) {
        for step in 1..=(n + 2) {
            overlapping(o, n, step);
            double(o, n, step);
        }
    }
    for _ in 0..(if t { 1500 } else { 100 }) {
        let n = r.below(300);
        let step = 1usize << r.below(8);
        overlapping(o, n, step);
        double(o, n, step);
        let step = 1 + r.below(60);
        overlapping(o, n, step);
        double(o, n, step);
    }
    // more than 16 bits count
    for &(n, step) in &[(70_000, 1usize << 14), (65_537, 1 << 15), (66_000, 65_536), (100_000, 40_000)] {
        overlapping(o, n, step);
        double(o, n, step);
        variable(o, n, &[step, 0, 1, step, n]);
    }
    // every list of up to 4 small sizes
    for n in 0..=(if t { 8 } else { 6usize }) {
        let m = if t { 4usize } else { 3 };
        for len in 0..=4u32 {
            for code in 0..(m + 1).pow(len) {
                let mut c = code;
                let sizes: Vec<usize> = (0..len)
                    .map(|_| {
                        let z = c % (m + 1);
                        c /= m + 1;
                        z
                    })
                    .collect();
                if t || r.chance(2) {
                    variable(o, n, &sizes);
                }
            }
        }
    }
    for _ in 0..(if t { 6000 } else { 500 }) {
        let n = r.below(200);
        let k = r.below(20);
        let sizes: Vec<usize> = (0..k)
            .map(|_| match r.below(5) {
                0 => 0,
                1 => r.below(200),
                2 => 1 << r.below(31),
                _ => r.below(20),
            })
            .collect();
        variable(o, n, &sizes);
    }
    for turn in 0..(if t { 8000 } else { 600 }) {
        let w = dim(r, if turn % 10 == 0 { 70 } else { 14 });
        let h = dim(r, if turn % 10 == 0 { 40 } else { 14 });
        let channels = 1 + r.below(4);
        let bs = if r.chance(3) { r.below(3) + 1 } else { 2 + r.below(3) };
        let s = 1usize << r.below(5);
        let looks = if w * h > 400 { 2 } else { 3 };
        image(r, o, w, h, channels, bs, s, looks);
    }
    for turn in 0..(if t { 3000 } else { 400 }) {
        let n = if turn % 20 == 0 { r.below(5000) } else { r.below(60) };
        let hint = r.chance(2);
        o.session(n as u64 / 4 + 1);
        o.mark(&format!("loop {} {}", n, hint));
        let items: Vec<i64> = (0..n as i64).collect();
        let out: Vec<i64> = if turn % 2 == 0 {
            process_maybe_parallel_map_collect(items.iter(), |x| 3 * x + 1, hint)
        } else {
            let v = Mutex::new(vec![]);
            process_maybe_parallel_for_each(items.iter(), |x| v.lock().unwrap().push(3 * x + 1), hint);
            v.into_inner().unwrap()
        };
        o.ev(&format!("{{\"ev\":\"loop\",\"n\":{},\"out\":{}}}", n, ints(&out)));
    }
    println!("events {}", o.events);
    o.flush();
}
