//! What all recorders share: random numbers, inputs, JSON lines, panic capture.
pub mod codec;
pub mod things;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % (n.max(1) as u64)) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + ((self.next() >> 11) % ((hi - lo + 1) as u64)) as i64
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
}

/// Command line: <topic> <seed> <quick|thorough> <shards> <outdir> [extra]
pub struct Args {
    pub topic: String,
    pub seed: u64,
    pub thorough: bool,
    pub shards: usize,
    pub out: String,
    pub extra: Vec<String>,
}
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    Args {
        topic: a[1].clone(),
        seed: a[2].parse().unwrap(),
        thorough: a[3] == "thorough",
        shards: a[4].parse().unwrap(),
        out: a[5].clone(),
        extra: a[6..].to_vec(),
    }
}

/// Writes events to shards; a whole session stays in one shard, the one with the least work so far.
pub struct Out {
    files: Vec<BufWriter<File>>,
    load: Vec<u64>,
    cur: usize,
    pub dir: String,
    pub events: u64,
    fresh: bool,
    mark: String,
}
impl Out {
    pub fn new(dir: &str, shards: usize) -> Out {
        let files = (0..shards)
            .map(|k| BufWriter::new(File::create(format!("{}/trace_{}.ndjson", dir, k)).unwrap()))
            .collect();
        Out { files, load: vec![0; shards], cur: 0, dir: dir.to_string(), events: 0, fresh: false, mark: format!("{}/current", dir) }
    }
    /// starts a session that will cost about this much to validate
    pub fn session(&mut self, cost: u64) {
        self.cur = (0..self.load.len()).min_by_key(|&k| self.load[k]).unwrap();
        self.load[self.cur] += cost.max(1);
        self.fresh = true;
    }
    pub fn ev(&mut self, json: &str) {
        self.events += 1;
        if self.fresh {
            self.fresh = false;
            writeln!(self.files[self.cur], "{{\"new\":true,{}", &json[1..]).unwrap();
        } else {
            writeln!(self.files[self.cur], "{}", json).unwrap();
        }
    }
    /// names what is about to run: a process that dies or hangs leaves it behind
    pub fn mark(&mut self, what: &str) {
        let _ = std::fs::write(&self.mark, what);
    }
    pub fn flush(&mut self) {
        for f in &mut self.files {
            f.flush().unwrap();
        }
        let _ = std::fs::remove_file(&self.mark);
    }
    pub fn finish(mut self) {
        self.flush();
    }
}

pub fn ints<T: Into<i64> + Copy>(v: &[T]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (k, x) in v.iter().enumerate() {
        if k > 0 {
            s.push(',');
        }
        let y: i64 = (*x).into();
        write!(s, "{}", y).unwrap();
    }
    s.push(']');
    s
}
pub fn idx(v: &[usize]) -> String {
    ints(&v.iter().map(|&x| x as i64).collect::<Vec<_>>())
}
pub fn bools(v: &[bool]) -> String {
    let w: Vec<&str> = v.iter().map(|&b| if b { "true" } else { "false" }).collect();
    format!("[{}]", w.join(","))
}
pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn u32p(x: u32) -> String {
    format!("[{},{}]", x >> 16, x & 0xffff)
}

/// 64 bit FNV-1a with a final mix
pub fn digest_bytes(b: impl Iterator<Item = u8>) -> String {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut n: u64 = 0;
    for x in b {
        h ^= u64::from(x);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
        n += 1;
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^= h >> 32;
    format!("{:016x}:{}", h, n)
}
pub fn dig8(b: &[u8]) -> String {
    digest_bytes(b.iter().cloned())
}
pub fn dig16(b: &[i16]) -> String {
    digest_bytes(b.iter().flat_map(|x| vec![*x as u8, (*x >> 8) as u8]))
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// None: it panicked
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// image sizes worth trying
pub fn dim(r: &mut Rng, max: usize) -> usize {
    let v = match r.below(6) {
        0 => r.below(4) + 1,
        1 => {
            let p = 1usize << r.below(8);
            (p + r.below(3)).saturating_sub(1)
        }
        2 => r.below(9) + 1,
        _ => r.below(max) + 1,
    };
    v.max(1).min(max)
}

/// samples of many kinds: noise, flat, sparse, gradients, edges, extreme contrast
pub fn samples(r: &mut Rng, w: usize, h: usize, chans: usize) -> Vec<u8> {
    let n = w * h * chans;
    let kind = r.below(12);
    let a = r.below(256) as u8;
    let b = if r.chance(2) { 255 - a } else { r.below(256) as u8 };
    let p = 1 + r.below(9);
    let q = 1 + r.below(5);
    (0..n)
        .map(|i| {
            let px = i / chans;
            let (x, y, c) = (px % w, px / w, i % chans);
            match kind {
                0 => r.below(256) as u8,
                1 => a,
                2 => {
                    if r.chance(20) {
                        r.below(256) as u8
                    } else {
                        a
                    }
                }
                3 => ((x * p + y * q + c * 11) & 255) as u8,
                4 => {
                    if ((x / p) + (y / q) + c) % 2 == 0 {
                        a
                    } else {
                        b
                    }
                }
                5 => {
                    if ((x / p) + (y / p)) % 2 == 0 {
                        0
                    } else {
                        255
                    }
                }
                6 => (128 + r.range(-3, 3)) as u8,
                7 => {
                    if x * h > y * w {
                        a
                    } else {
                        b
                    }
                }
                8 => {
                    if r.chance(2) {
                        0
                    } else {
                        255
                    }
                }
                9 => (((x * x + y * y) * p / 16 + c * 40) & 255) as u8,
                10 => {
                    if x < w / 2 {
                        r.below(256) as u8
                    } else {
                        a
                    }
                }
                _ => {
                    let base = (x * 200 / w.max(1) + y * 50 / h.max(1)) as i64;
                    (base + r.range(-2, 2)).max(0).min(255) as u8
                }
            }
        })
        .collect()
}

/// quantized coefficients: mostly zero, small, geometric, wide, long runs
pub fn coefs(r: &mut Rng, n: usize) -> Vec<i16> {
    let kind = r.below(9);
    let dens = 1 + r.below(60);
    let mut burst = 0usize;
    (0..n)
        .map(|_| match kind {
            0 => 0,
            1 => {
                if r.chance(dens) {
                    r.range(-3, 3) as i16
                } else {
                    0
                }
            }
            2 => r.range(-2, 2) as i16,
            3 => {
                let m = 1i64 << r.below(13);
                r.range(-m, m) as i16
            }
            4 => r.range(-32767, 32767) as i16,
            5 => {
                if burst == 0 && r.chance(40) {
                    burst = r.below(60) + 1
                }
                if burst > 0 {
                    burst -= 1;
                    r.range(-300, 300) as i16
                } else {
                    0
                }
            }
            6 => {
                if r.chance(dens) {
                    r.range(-5000, 5000) as i16
                } else {
                    r.range(-1, 1) as i16
                }
            }
            7 => r.range(-40, 40) as i16,
            _ => {
                if r.chance(3) {
                    r.range(-9, 9) as i16
                } else {
                    0
                }
            }
        })
        .collect()
}
