//! F01: sinks and sources of the caller that take or give what they like, or fail.
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use gfwx::encode::{decode, encode};
use gfwx::processing::image::Image;
use gfwx::{ColorTransformProgram, Header, HeaderBuilder};
use gvharness::codec::*;
use gvharness::things::*;
use gvharness::*;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    Fail(io::ErrorKind),
    Empty,
}
/// what the other side does
#[derive(Clone)]
struct Plan {
    /// at which call the fault comes, and just once
    at: usize,
    fault: Fault,
    /// how much goes through at once; 0: everything
    sip: usize,
    /// every so many calls are interrupted; 0: none
    hiccup: usize,
}
const NEVER: usize = usize::MAX;

struct Peer {
    plan: Plan,
    calls: usize,
    log: Vec<String>,
    /// of a source
    data: Vec<u8>,
    pos: usize,
}
enum Answer {
    Some(usize),
    Err(io::ErrorKind),
}
impl Peer {
    fn new(plan: &Plan, data: &[u8]) -> Peer {
        Peer { plan: plan.clone(), calls: 0, log: vec![], data: data.to_vec(), pos: 0 }
    }
    fn answer(&mut self, asked: usize, buf: Option<&[u8]>) -> Answer {
        let k = self.calls;
        self.calls += 1;
        assert!(k < 1_000_000, "no end");
        let (a, m, r) = if k == self.plan.at {
            match self.plan.fault {
                Fault::Fail(e) => ("fail", 0, Answer::Err(e)),
                Fault::Empty => ("none", 0, Answer::Some(0)),
            }
        } else if self.plan.hiccup > 0 && k % (self.plan.hiccup + 1) != 0 {
            ("again", 0, Answer::Err(io::ErrorKind::Interrupted))
        } else {
            let n = if self.plan.sip == 0 { asked } else { asked.min(1 + (k * 7 + self.plan.sip) % self.plan.sip) };
            ("some", n, Answer::Some(n))
        };
        let b = buf.map_or(String::new(), |b| format!("\"b\":{},", ints(b)));
        self.log.push(format!("{{{}\"n\":{},\"a\":\"{}\",\"m\":{}}}", b, asked, a, m));
        r
    }
}
impl Write for Peer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        match self.answer(b.len(), Some(b)) {
            Answer::Some(n) => Ok(n),
            Answer::Err(e) => Err(e.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Peer {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        match self.answer(b.len(), None) {
            Answer::Some(n) => {
                // whoever asks for more than there should be gets zeros
                for x in b.iter_mut().take(n) {
                    *x = self.data.get(self.pos).cloned().unwrap_or(0);
                    self.pos += 1;
                }
                Ok(n)
            }
            Answer::Err(e) => Err(e.into()),
        }
    }
}

struct Block {
    w: usize,
    h: usize,
    edge: usize,
    s: usize,
    n: usize,
    enc: usize,
    img: Vec<i16>,
    start: Vec<i16>,
    k: usize,
    q: i32,
    dc: bool,
    ch: bool,
}

enum Thing {
    Header(Header),
    Program(Vec<T>, usize),
    Codes(Vec<Op>),
    Block(Block),
}

impl Thing {
    fn json(&self) -> String {
        match self {
            Thing::Header(h) => format!("\"kind\":\"header\",\"h\":{}", h_json(h)),
            Thing::Program(t, n) => format!("\"kind\":\"program\",\"prog\":{},\"n\":{}", prog_json(t), n),
            Thing::Codes(ops) => format!("\"kind\":\"codes\",\"ops\":{}", ops_json(ops)),
            Thing::Block(b) => format!(
                "\"kind\":\"block\",\"v\":{{\"w\":{},\"h\":{},\"n\":{},\"edge\":{},\"s\":{},\"enc\":{}}},\"img\":{},\"start\":{},\"k\":{},\"q\":{},\"dc\":{},\"ch\":{}",
                b.w, b.h, b.n, b.edge, b.s, b.enc, ints(&b.img), ints(&b.start), b.k, b.q, b.dc, b.ch
            ),
        }
    }
    /// None: an error; Some(flags)
    fn put(&self, p: &mut Peer) -> Option<Vec<bool>> {
        match self {
            Thing::Header(h) => h.encode(p).ok().map(|_| vec![]),
            Thing::Program(t, n) => program(t).encode(*n, p).ok(),
            Thing::Codes(ops) => {
                let mut w = BitsIOWriter::new(p);
                for op in ops {
                    put(op, &mut w).ok()?;
                }
                Some(vec![])
            }
            Thing::Block(b) => {
                let mut img = b.img.clone();
                let c = Image::from_slice(&mut img, (b.w, b.h), b.n).into_chunks_mut(b.edge, b.s).nth(b.k).expect("a block");
                let mut w = BitsIOWriter::new(p);
                encode(&c, &mut w, encoder(b.enc), b.q, b.dc, b.ch).ok()?;
                w.flush_write_word().ok()?;
                Some(vec![])
            }
        }
    }
    /// None: an error; what was read and flags
    fn get(&self, p: &mut Peer) -> Option<(String, Vec<bool>)> {
        match self {
            Thing::Header(_) => Header::decode(p).ok().map(|h| (h_json(&h), vec![])),
            Thing::Program(_, n) => {
                let mut flags = vec![false; *n];
                let t = ColorTransformProgram::decode(p, &mut flags).ok()?;
                Some((prog_json(&from_program(&t)), flags))
            }
            Thing::Codes(ops) => {
                let mut rd = BitsIOReader::new(p);
                let mut v = vec![];
                for op in ops {
                    v.push(pair(get(op, &mut rd).ok()?));
                }
                Some((list(&v), vec![]))
            }
            Thing::Block(b) => {
                let mut img = b.start.clone();
                {
                    let c = Image::from_slice(&mut img, (b.w, b.h), b.n).into_chunks_mut(b.edge, b.s).nth(b.k).expect("a block");
                    let mut rd = BitsIOReader::new(p);
                    decode(c, &mut rd, encoder(b.enc), b.q, b.dc, b.ch).ok()?;
                }
                Some((ints(&img), vec![]))
            }
        }
    }

    fn write(&self, o: &mut Out, plan: &Plan) -> usize {
        let mut p = Peer::new(plan, &[]);
        let r = guard(|| self.put(&mut p));
        let (res, flags) = match r {
            None => ("panic", vec![]),
            Some(None) => ("err", vec![]),
            Some(Some(f)) => ("ok", f),
        };
        o.ev(&format!(
            "{{\"ev\":\"run\",\"dir\":\"sink\",\"calls\":{},\"res\":\"{}\",\"value\":0,\"flags\":{}}}",
            list(&p.log), res, bools(&flags)
        ));
        p.calls
    }
    fn read(&self, o: &mut Out, plan: &Plan, bytes: &[u8]) -> usize {
        let mut p = Peer::new(plan, bytes);
        let r = guard(|| self.get(&mut p));
        let (res, v, flags) = match r {
            None => ("panic", "0".to_string(), vec![]),
            Some(None) => ("err", "0".to_string(), vec![]),
            Some(Some((v, f))) => ("ok", v, f),
        };
        o.ev(&format!(
            "{{\"ev\":\"run\",\"dir\":\"source\",\"calls\":{},\"res\":\"{}\",\"value\":{},\"flags\":{}}}",
            list(&p.log), res, v, bools(&flags)
        ));
        p.calls
    }
}

fn kind(r: &mut Rng) -> Fault {
    match r.below(6) {
        0 | 1 => Fault::Empty,
        2 => Fault::Fail(io::ErrorKind::UnexpectedEof),
        3 => Fault::Fail(io::ErrorKind::WouldBlock),
        4 => Fault::Fail(io::ErrorKind::WriteZero),
        _ => Fault::Fail(io::ErrorKind::Other),
    }
}

fn session(r: &mut Rng, o: &mut Out, t: &Thing, most: usize) {
    o.mark(&format!("fault {}", t.json()));
    // what there is to read
    let mut bytes = vec![];
    let clean = Plan { at: NEVER, fault: Fault::Empty, sip: 0, hiccup: 0 };
    struct Keep<'a>(&'a mut Vec<u8>);
    impl Write for Keep<'_> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let good = guard(|| match t {
        Thing::Header(h) => h.encode(&mut Keep(&mut bytes)).is_ok(),
        Thing::Program(t, n) => program(t).encode(*n, &mut Keep(&mut bytes)).is_ok(),
        Thing::Codes(ops) => {
            let mut k = Keep(&mut bytes);
            let mut w = BitsIOWriter::new(&mut k);
            ops.iter().all(|op| put(op, &mut w).is_ok())
        }
        Thing::Block(b) => {
            let mut img = b.img.clone();
            let c = Image::from_slice(&mut img, (b.w, b.h), b.n).into_chunks_mut(b.edge, b.s).nth(b.k).expect("a block");
            let mut k = Keep(&mut bytes);
            let mut w = BitsIOWriter::new(&mut k);
            encode(&c, &mut w, encoder(b.enc), b.q, b.dc, b.ch).is_ok() && w.flush_write_word().is_ok()
        }
    });
    o.session(bytes.len() as u64 * bytes.len().min(4 * most) as u64 / 4 + 50);
    o.ev(&format!("{{\"ev\":\"thing\",{}}}", t.json()));
    let calls = t.write(o, &clean);
    for at in picks(r, calls, most) {
        let fault = kind(r);
        t.write(o, &Plan { at, fault, ..clean.clone() });
    }
    let calls = if good == Some(true) { t.read(o, &clean, &bytes) } else { 0 };
    for at in picks(r, calls, most) {
        let fault = kind(r);
        t.read(o, &Plan { at, fault, ..clean.clone() }, &bytes);
    }
    for round in 0..4 {
        let fault = kind(r);
        let at = if round < 2 { NEVER } else { r.below(bytes.len() + 2) };
        let p = Plan { at, fault, sip: r.below(6), hiccup: r.below(3) };
        t.write(o, &p);
        if good == Some(true) {
            t.read(o, &p, &bytes);
        }
    }
}
/// every call, or the first, the last and some between
fn picks(r: &mut Rng, calls: usize, most: usize) -> Vec<usize> {
    if calls <= most {
        return (0..calls).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, calls - 2, calls - 1];
    while v.len() < most {
        v.push(r.below(calls));
    }
    v
}

fn faults(r: &mut Rng, o: &mut Out, thorough: bool) {
    let turns = if thorough { 24_000 } else { 2400 };
    let most = if thorough { 60 } else { 24 };
    for turn in 0..turns {
        let t = match turn % 4 {
            0 => {
                let v = any_v(r, true);
                let b = HeaderBuilder {
                    width: v.width,
                    height: v.height,
                    layers: v.layers,
                    channels: v.channels,
                    quality: v.quality,
                    chroma_scale: v.cs,
                    block_size: v.bs,
                    filter: filter(v.filter),
                    encoder: encoder(v.encoder),
                    intent: intent(v.intent),
                    metadata_size: v.meta,
                }
                .build();
                match b {
                    Ok(h) => Thing::Header(h),
                    Err(_) => continue,
                }
            }
            1 => {
                let n = r.pick(&[1usize, 3, 4, 7, 40]);
                Thing::Program(if turn % 8 == 1 && n >= 3 { from_program(&preset(r)) } else { custom(r, n, true) }, n)
            }
            2 => {
                let len = 1 + r.below(20);
                let mut ops: Vec<Op> = (0..len).map(|_| any_op(r, true)).collect();
                ops.push(Op('f', 0, 0));
                Thing::Codes(ops)
            }
            _ => {
                let s = 1usize << r.below(3);
                let (w, h, n) = (dim(r, 14 * s), dim(r, 14 * s), 1 + r.below(2));
                let edge = s << (2 + r.below(3));
                let img = coefs(r, w * h * n);
                let junk = r.range(-300, 300) as i16;
                let start = (0..img.len())
                    .map(|j| {
                        let i = j % (w * h);
                        if (i % w) % (2 * s) == 0 && (i / w) % (2 * s) == 0 {
                            img[j]
                        } else {
                            junk
                        }
                    })
                    .collect();
                let count = ((w + edge - 1) / edge) * ((h + edge - 1) / edge) * n;
                Thing::Block(Block {
                    w,
                    h,
                    edge,
                    s,
                    n,
                    enc: r.below(3),
                    img,
                    start,
                    k: r.below(count),
                    q: r.pick(&[1024, 1, 100, 8192, 2047]),
                    dc: r.chance(2),
                    ch: r.chance(2),
                })
            }
        };
        session(r, o, &t, most);
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut r = Rng::new(a.seed);
    let mut o = Out::new(&a.out, a.shards);
    match a.topic.as_str() {
        "faults" => faults(&mut r, &mut o, a.thorough),
        t => panic!("no topic {}", t),
    }
    println!("events {}", o.events);
    o.finish();
}
