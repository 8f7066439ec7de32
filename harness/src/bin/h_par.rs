//! S01: the same requests under many ways of running them.
use gvharness::codec::*;
use gvharness::*;
use std::sync::{Arc, Mutex};

fn flavour() -> &'static str {
    if cfg!(all(feature = "par", feature = "adapt")) {
        "default"
    } else if cfg!(feature = "par") {
        "par"
    } else {
        "seq"
    }
}

#[derive(Clone)]
enum Ask {
    Simple { cap: usize },
    Aux { cap: usize },
    Read { d: usize, cut: usize, test: bool },
    ReadAux { d: usize, cut: usize },
    Damaged { d: usize },
    Lift,
    Unlift,
}

struct Case {
    id: String,
    p: P,
    prog: Vec<T>,
    flags: Vec<bool>,
    img: Vec<u8>,
    aux: Vec<i16>,
    file: Vec<u8>,
    payload_at: usize,
    damaged: Vec<u8>,
    asks: Vec<(String, Ask)>,
}

/// the same with one parameter changed, so that anything kept from one call to the next is noticed
fn sibling(r: &mut Rng, p: &P) -> P {
    let mut q = p.clone();
    match r.below(9) {
        0 | 1 | 2 => q.cs = if p.cs == 1 { 2 + r.below(30) } else { 1 + r.below(p.cs) },
        3 => q.quality = if p.quality == 1024 { 1 + r.below(1023) } else { 1 + r.below(1024) },
        4 => q.bs = if p.bs == 2 { 3 + r.below(28) } else { 2 + r.below(p.bs - 1) },
        5 => q.filter = 1 - p.filter,
        6 => q.encoder = (p.encoder + 1 + r.below(2)) % 3,
        7 => {
            q.layers = p.channels;
            q.channels = p.layers;
        }
        _ => {
            q.w = p.h;
            q.h = p.w;
        }
    }
    q
}

fn make(r: &mut Rng, id: usize, thorough: bool) -> Option<Case> {
    // around and above the sizes that switch parallel loops on
    let p = loop {
        if id == 4 || id == 5 || thorough && id % 50 == 9 {
            // more than a million samples in a plane, or in all of them
            let (w, n) = if id % 2 == 0 { (1030 + r.below(200), 1) } else { (520 + r.below(100), 4) };
            break P { w, h: w + r.below(20), layers: 1, channels: n, bs: r.pick(&[3, 5, 7, 7, 9]), ..params(r, 9, 100) };
        }
        let mut p = match id % 6 {
            0 => params(r, 40, 2000),
            1 => params(r, 700, 40_000),
            _ => params(r, 260, if thorough { 200_000 } else { 90_000 }),
        };
        if id % 3 == 2 {
            p.bs = 2;
        }
        if id % 6 < 2 || p.total() > 4500 {
            break p;
        }
    };
    let img = samples(r, p.w, p.h, p.n());
    let prog = fitting_program(r, &p, &img);
    with(r, id.to_string(), p, img, prog)
}

fn with(r: &mut Rng, id: String, p: P, img: Vec<u8>, prog: Vec<T>) -> Option<Case> {
    let flags = chroma(&prog, p.n());
    let vast = p.total() > 1_000_000;
    let aux = planes(&p, &prog, &img)?;
    let mut file = vec![0u8; if vast { 4 * p.total() + 1_000_000 } else { p.room() }];
    let header = p.header();
    let pr = program(&prog);
    let n = match guard(|| gfwx::compress_simple(&img, &header, &pr, &mut file)) {
        Some(Ok(n)) => n,
        _ => 0,
    };
    file.truncate(n);
    let mut b = vec![];
    let _ = guard(|| pr.encode(p.n(), &mut b));
    let payload_at = (32 + b.len()).min(n);
    let mut damaged = file.get(32..).unwrap_or(&[]).to_vec();
    if damaged.len() > b.len() {
        for _ in 0..3 {
            let k = b.len() + r.below(damaged.len() - b.len());
            damaged[k] ^= 1 << r.below(8);
        }
    }
    let len = n.saturating_sub(32);
    let mut asks = vec![
        ("simple".to_string(), Ask::Simple { cap: file.capacity() }),
        ("read".to_string(), Ask::Read { d: 0, cut: len, test: false }),
        ("damaged".to_string(), Ask::Damaged { d: r.below(2) }),
    ];
    let cap = n / 2 + r.below(n + 8);
    asks.push((format!("simple{}", cap), Ask::Simple { cap }));
    let cap = (n - payload_at) + r.below(n / 4 + 8);
    asks.push((format!("aux{}", cap), Ask::Aux { cap }));
    let d = 1 + r.below(3);
    let cut = r.below(len + 1);
    asks.push((format!("read{}c{}", d, cut), Ask::Read { d, cut, test: false }));
    let cut = r.below(len + 1);
    asks.push((format!("test0c{}", cut), Ask::Read { d: 0, cut, test: true }));
    let cut = r.below(n - payload_at + 1);
    let d = r.below(2);
    asks.push((format!("readaux{}c{}", d, cut), Ask::ReadAux { d, cut }));
    asks.push(("lift".into(), Ask::Lift));
    asks.push(("unlift".into(), Ask::Unlift));
    if vast {
        // a few, they take long
        let lift = asks.split_off(asks.len() - 2);
        asks.truncate(2);
        asks.extend(lift);
    }
    Some(Case { id, p, prog, flags, img, aux, file, payload_at, damaged, asks })
}

/// result and digest of what was written
fn answer(c: &Case, a: &Ask, fill: u8) -> (String, String) {
    let header = c.p.header();
    let pr = program(&c.prog);
    match a {
        Ask::Simple { cap } => {
            let mut b = vec![fill; *cap];
            let r = guard(|| gfwx::compress_simple(&c.img, &header, &pr, &mut b));
            let n = if let Some(Ok(n)) = r { n } else { 0 };
            (cres(&r), dig8(&b[..n]))
        }
        Ask::Aux { cap } => {
            let mut b = vec![fill; *cap];
            let mut v = c.aux.clone();
            let r = guard(|| gfwx::compress_aux_data(&mut v, &header, &c.flags, &mut b));
            let n = if let Some(Ok(n)) = r { n } else { 0 };
            (cres(&r), dig8(&b[..n]) + &dig16(&v))
        }
        Ask::Read { d, cut, test } => {
            // data behind the cut must not matter
            let mut b = vec![if *test { 1 } else { fill }; header.get_downsampled_image_size(*d)];
            let r = guard(|| gfwx::decompress_simple(&c.file[32..32 + cut], &header, *d, *test, &mut b));
            (dres(&r), if let Some(Ok(_)) = r { dig8(&b) } else { String::new() })
        }
        Ask::ReadAux { d, cut } => {
            let mut b = vec![0i16; header.get_downsampled_image_size(*d)];
            let r = guard(|| gfwx::decompress_aux_data(&c.file[c.payload_at..c.payload_at + cut], &header, &c.flags, *d, false, &mut b));
            (dres(&r), if let Some(Ok(_)) = r { dig16(&b) } else { String::new() })
        }
        Ask::Damaged { d } => {
            let mut b = vec![fill; header.get_downsampled_image_size(*d)];
            let r = guard(|| gfwx::decompress_simple(&c.damaged, &header, *d, false, &mut b));
            (dres(&r), if let Some(Ok(_)) = r { dig8(&b) } else { String::new() })
        }
        Ask::Lift | Ask::Unlift => {
            let mut v = c.aux[..c.p.size()].to_vec();
            if c.p.filter == 0 && !matches!(a, Ask::Lift) {
                for x in v.iter_mut() {
                    *x /= 64;
                }
            }
            let r = guard(|| {
                let mut rows: Vec<&mut [i16]> = v.chunks_mut(c.p.w).collect();
                match (a, c.p.filter) {
                    (Ask::Lift, 0) => gfwx::lifting::lift_linear(&mut rows),
                    (Ask::Lift, _) => gfwx::lifting::lift_cubic(&mut rows),
                    (_, 0) => gfwx::lifting::unlift_linear(&mut rows),
                    _ => gfwx::lifting::unlift_cubic(&mut rows),
                }
            });
            (if r.is_some() { "[\"ok\",0]".into() } else { "[\"panic\"]".into() }, dig16(&v))
        }
    }
}

/// the events of all callers in the order in which they happened
type Log = Arc<Mutex<Vec<String>>>;

fn ask(log: &Log, c: &Case, who: &str, how: &str, k: usize, fill: u8) {
    let (name, a) = &c.asks[k];
    let req = format!("{}.{}", c.id, name);
    log.lock().unwrap().push(format!("{{\"ev\":\"call\",\"who\":\"{}\",\"req\":\"{}\"}}", who, req));
    let (res, sum) = answer(c, a, fill);
    log.lock().unwrap().push(format!(
        "{{\"ev\":\"return\",\"who\":\"{}\",\"req\":\"{}\",\"how\":\"{}\",\"res\":{},\"sum\":\"{}\"}}",
        who, req, how, res, sum
    ));
}

#[cfg(feature = "par")]
fn pooled(threads: usize, f: impl FnOnce() + Send) {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f);
}
#[cfg(not(feature = "par"))]
fn pooled(_threads: usize, f: impl FnOnce() + Send) {
    f();
}

fn main() {
    quiet_panics();
    let a = args();
    let mut o = Out::new(&a.out, a.shards);
    let cases = if a.thorough { 800 } else { 90 };
    for id in 0..cases {
        // the same cases in every flavour
        let mut r = Rng::new(a.seed.wrapping_mul(1000) + id as u64);
        o.mark(&format!("{} making case {}", flavour(), id));
        let mut cs = vec![match make(&mut r, id, a.thorough) {
            Some(c) => c,
            None => continue,
        }];
        let base = cs[0].p.clone();
        if base.total() < 25_000 {
            for k in 0..3 {
                let q = sibling(&mut r, &base);
                let c = &cs[0];
                let (img, prog) = (c.img.clone(), c.prog.clone());
                if let Some(mut s) = with(&mut r, format!("{}s{}", id, k), q, img, prog) {
                    s.asks.truncate(2);
                    cs.push(s);
                }
            }
        }
        let c = Arc::new(cs);
        o.session(1);
        o.mark(&format!("{} case {} {} {}", flavour(), id, base.json(), prog_json(&c[0].prog)));
        let log: Log = Arc::new(Mutex::new(vec![]));
        let mut all: Vec<(usize, usize)> = vec![];
        for k in 0..c[0].asks.len() {
            all.push((0, k));
            if k < 2 {
                for j in 1..c.len() {
                    all.push((j, k));
                }
            }
        }
        for threads in &[1usize, 2, 3, 8, 13, 40] {
            if flavour() == "seq" && *threads > 1 {
                continue;
            }
            let (l, c2, all2) = (log.clone(), c.clone(), all.clone());
            let fill = r.below(256) as u8;
            let how = format!("{}/{}", flavour(), threads);
            pooled(*threads, move || {
                for (j, k) in all2 {
                    ask(&l, &c2[j], "main", &how, k, fill);
                }
            });
        }
        // again, in another order
        for (j, k) in all.iter().rev() {
            ask(&log, &c[*j], "main", &format!("{}/again", flavour()), *k, 1);
        }
        // several callers at once: in the same pool and each in its own
        let callers = 4;
        let mut hands = vec![];
        for t in 0..callers {
            let (l, c2) = (log.clone(), c.clone());
            let (n, all2) = (all.len(), all.clone());
            hands.push(std::thread::spawn(move || {
                for j in 0..n {
                    let (m, k) = all2[(j * (2 * t + 1) + t) % n];
                    let how = format!("{}/concurrent", flavour());
                    let who = format!("caller{}", t);
                    if t == 3 {
                        pooled(2, || ask(&l, &c2[m], &who, &how, k, j as u8));
                    } else {
                        ask(&l, &c2[m], &who, &how, k, j as u8);
                    }
                }
            }));
        }
        for h in hands {
            let _ = h.join();
        }
        for e in log.lock().unwrap().iter() {
            o.ev(e);
        }
    }
    println!("events {}", o.events);
    o.finish();
}
