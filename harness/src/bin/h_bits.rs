//! E01: bit streams and Golomb codes.
use gfwx::bits::{BitsIOReader, BitsIOWriter};
use gvharness::things::*;
use gvharness::*;

/// room: None: a growing vector. Returns what the sink holds if all went well.
fn write(r: &mut Rng, o: &mut Out, ops: &[Op], room: Option<usize>) -> Option<Vec<u8>> {
    let fill = r.below(256) as u8;
    let mut sink = vec![fill; room.unwrap_or(0)];
    let run = guard(|| -> Result<(), usize> {
        match room {
            None => {
                let mut w = BitsIOWriter::new(&mut sink);
                for (k, op) in ops.iter().enumerate() {
                    put(op, &mut w).map_err(|_| k + 1)?;
                }
            }
            Some(_) => {
                let mut s: &mut [u8] = &mut sink;
                let mut w = BitsIOWriter::new(&mut s);
                for (k, op) in ops.iter().enumerate() {
                    put(op, &mut w).map_err(|_| k + 1)?;
                }
            }
        }
        Ok(())
    });
    let res = match &run {
        None => "[\"panic\"]".to_string(),
        Some(Err(k)) => format!("[\"err\",{}]", k),
        Some(Ok(())) => "[\"ok\"]".to_string(),
    };
    o.ev(&format!(
        "{{\"ev\":\"write\",\"ops\":{},\"room\":{},\"fill\":{},\"res\":{},\"sink\":{}}}",
        ops_json(ops),
        room.map_or(-1, |n| n as i64),
        fill,
        res,
        ints(&sink)
    ));
    if let Some(Ok(())) = run {
        Some(sink)
    } else {
        None
    }
}

fn read(o: &mut Out, ev: &str, ops: &[Op], bytes: &[u8]) {
    let mut src: &[u8] = bytes;
    let run = guard(|| {
        let mut values = vec![];
        let mut failed = false;
        {
            let mut rd = BitsIOReader::new(&mut src);
            for op in ops {
                match get(op, &mut rd) {
                    Ok(v) => values.push(v),
                    Err(_) => {
                        failed = true;
                        break;
                    }
                }
            }
        }
        (values, failed)
    });
    match run {
        None => o.ev(&format!("{{\"ev\":\"{}\",\"panic\":true,\"ops\":{},\"bytes\":{},\"values\":[],\"failed\":\"panic\",\"words\":-1}}", ev, ops_json(ops), ints(bytes))),
        Some((v, f)) => o.ev(&format!(
            "{{\"ev\":\"{}\",\"ops\":{},\"bytes\":{},\"values\":{},\"failed\":{},\"words\":{}}}",
            ev,
            if ev == "readback" { "[]".to_string() } else { ops_json(ops) },
            if ev == "readback" { "[]".to_string() } else { ints(bytes) },
            list(&v.iter().map(|&x| pair(x)).collect::<Vec<_>>()),
            f,
            (bytes.len() - src.len()) / 4
        )),
    }
}

fn main() {
    quiet_panics();
    let a = args();
    let mut rr = Rng::new(a.seed);
    let r = &mut rr;
    let mut out = Out::new(&a.out, a.shards);
    let o = &mut out;

    // mixed sequences, written, read back, cut off, without room
    let n = if a.thorough { 40000 } else { 2500 };
    for _ in 0..n {
        o.session(2);
        let len = 1 + r.below(14);
        let mut ops: Vec<Op> = (0..len).map(|_| any_op(r, true)).collect();
        ops.push(Op('f', 0, 0));
        let bytes = match write(r, o, &ops, None) {
            Some(b) => b,
            None => continue,
        };
        // the reader must be told where words were filled up, but the last flush is up to it
        read(o, "readback", &ops, &bytes);
        let room = match r.below(3) {
            0 => bytes.len(),
            1 => bytes.len() + r.below(9),
            _ => r.below(bytes.len() + 1),
        };
        write(r, o, &ops, Some(room));
        let mut cut = bytes.clone();
        cut.truncate(r.below(bytes.len() + 1));
        read(o, "read", &ops, &cut);
        // more bytes behind must not be touched
        let mut more = bytes.clone();
        for _ in 0..r.below(9) {
            more.push(r.below(256) as u8);
        }
        read(o, "read", &ops, &more);
    }
    // any operations on noise; few ones, so that escapes occur
    let n = if a.thorough { 30000 } else { 2000 };
    for _ in 0..n {
        o.session(1);
        let len = r.below(60);
        let sparse = r.below(4);
        let mut bytes: Vec<u8> = (0..len)
            .map(|_| {
                let mut b = r.below(256);
                for _ in 0..sparse {
                    b &= r.below(256);
                }
                b as u8
            })
            .collect();
        if r.chance(2) {
            // no more than a few escapes in a row
            for k in (0..len).step_by(4) {
                bytes[k] |= 1 << r.below(8);
            }
        }
        let ops: Vec<Op> = (0..1 + r.below(12))
            .map(|_| {
                if r.chance(4) {
                    Op('z', 0, 1 + r.below(12) as u32)
                } else {
                    let mut op = any_op(r, true);
                    op.1 = 0;
                    op
                }
            })
            .collect();
        read(o, "read", &ops, &bytes);
    }
    // every number of a range with every parameter
    let top: i64 = if a.thorough { 70000 } else { 6000 };
    let chunk = 250;
    for kind in &['u', 'i', 's'] {
        for pot in 0..if a.thorough { 13 } else { 6 } {
            let mut at = 0;
            while at < top {
                let ops: Vec<Op> = (at..at + chunk)
                    .map(|x| {
                        let v = if *kind == 'u' { x } else { x / 2 * if x % 2 == 0 { 1 } else { -1 } };
                        Op(*kind, v, pot)
                    })
                    .chain(std::iter::once(Op('f', 0, 0)))
                    .collect();
                // sample the ranges above the lowest ones in quick runs
                if at < 1500 || a.thorough || r.chance(6) {
                    o.session(20);
                    if let Some(b) = write(r, o, &ops, None) {
                        read(o, "readback", &ops, &b);
                    }
                }
                at += chunk;
            }
        }
    }
    println!("events {}", o.events);
    out.finish();
}
