#!/usr/bin/env python3
"""Holds the specification against the C++ implementation in /repo/reference_app (gfwx.hpp).
compare.py [seed] [jobs]: random images, compressed and decompressed by the C++ code, have to be what the
specification computes.  A test of the specification, not of the Rust code: no check runs it."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
import runner


def program(r, n):
    """transforms as records; no channel twice, sources anywhere before the destination in the program or untouched"""
    out = []
    dests = r.sample(range(n), r.randint(0, n)) if r.random() < 0.8 else []
    for k, dest in enumerate(dests):
        # a transformed channel counts with its transformed samples, an untouched one with its own
        sources = [c for c in range(n) if c != dest and c not in dests[k + 1:]]
        r.shuffle(sources)
        factors = [[s, r.choice([1, 1, -1, -1, 2, -2, 3, -4, 7])] for s in sources[:r.randint(0, 3)]]
        out.append({"dest": dest, "factors": factors, "denom": r.choice([1, 1, 2, 3, 4, 5]), "chroma": r.random() < 0.5})
    return out


def tame(p, prog):
    """The planes stay so small that lifting them does not leave 16 bits.  Beyond that the C++ code cuts the cubic
    prediction to 16 bits before it takes the median and the Rust code after it; the format promises nothing there."""
    boost = 1 if p["quality"] == 1024 else 8
    bound = [255 * boost] * (p["layers"] * p["channels"])
    for t in prog:
        total = sum(abs(f) * bound[s] for s, f in t["factors"])
        if total > 32767:
            return False
        bound[t["dest"]] += total // t["denom"]
    return max(bound) <= 8000


def job(r, wide):
    while True:
        limit = 64 if wide else 24
        w, h = r.randint(1, limit), r.randint(1, limit)
        layers, channels = r.choice([(1, 1), (1, 3), (1, 3), (1, 4), (2, 1), (2, 3), (3, 2)])
        n = layers * channels
        if w * h * n <= (6000 if wide else 1200):
            break
    quality = r.choice([1024, 1024, r.randint(1, 1023), r.randint(900, 1023), r.randint(1, 60), 1, 511, 512])
    p = {"w": w, "h": h, "layers": layers, "channels": channels, "quality": quality, "cs": r.choice([1, 2, 8, 8, 16, 100, 255, 256]),
         "bs": r.choice([2, 2, 3, 4, 7, 28]), "filter": r.randint(0, 1), "encoder": r.randint(0, 2)}
    kind = r.randint(0, 4)
    base = [r.randint(0, 255) for _ in range(n)]
    img = []
    for k in range(w * h * layers):
        for c in range(channels):
            x, y = (k % (w * h)) % w, (k % (w * h)) // w
            if kind == 0:
                v = r.randint(0, 255)
            elif kind == 1:
                v = base[c] + 3 * x - 2 * y + r.randint(-2, 2)
            elif kind == 2:
                v = base[c] if r.random() < 0.97 else r.randint(0, 255)
            elif kind == 3:
                v = 255 * ((x >> 2 ^ y >> 2) & 1)
            else:
                v = base[c] + (40 if x > y else 0) + r.randint(0, 1)
            img.append(max(0, min(255, v)))
    while True:
        prog = program(r, n)
        if tame(p, prog):
            return p, prog, img


def line(p, prog, img, dmax):
    code = []
    for t in prog:
        code.append(t["dest"])
        for s, f in t["factors"]:
            code += [s, f]
        code += [-1, t["denom"], 1 if t["chroma"] else 0]
    code.append(-1)
    head = [p["w"], p["h"], p["layers"], p["channels"], p["quality"], p["cs"], p["bs"], p["filter"], p["encoder"], dmax]
    return " ".join(map(str, head + [len(code)] + code + img))


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    scratch = tempfile.mkdtemp(prefix="gv_reference_")
    try:
        driver = os.path.join(scratch, "driver")
        subprocess.run(["g++", "-O1", "-fwrapv", "-w", "-I", os.path.join(runner.REPO, "reference_app"),
                        os.path.join(HERE, "driver.cpp"), "-o", driver], check=True)
        r = random.Random(seed)
        made = []
        for k in range(jobs):
            p, prog, img = job(r, k % 10 == 9)
            # the C++ decoder looks at the downsampled step where the Turbo encoder looked at the full one:
            # nothing of other resolutions is comparable there (a fixed defect of the Rust code, see DESIGN.md)
            dmax = 0 if p["encoder"] == 0 else 3
            made.append((p, prog, img, dmax))
        out = subprocess.run([driver], input="\n".join(line(*m) for m in made) + "\n", capture_output=True, text=True, check=True)
        events = []
        for (p, prog, img, dmax), text in zip(made, out.stdout.splitlines()):
            got = json.loads(text)
            events.append({"p": p, "prog": prog, "img": img, "bytes": got["bytes"], "images": got["images"], "cuts": got["cuts"]})
        shutil.copy(os.path.join(HERE, "TraceReference.tla"), scratch)
        for f in ("TraceBase.tla", "Trace.cfg"):
            shutil.copy(os.path.join(runner.VERIF, "trace", f), scratch)
        bad = 0

        def one(k):
            path = os.path.join(scratch, "t%d.ndjson" % k)
            part = events[k::16]
            with open(path, "w") as f:
                for e in part:
                    f.write(json.dumps(e) + "\n")
            rc, text = runner.tlc(scratch, "TraceReference", "Trace.cfg", {"TRACE": path, "EXPLAIN": "1"}, 3000)
            return k, rc, text, len(part)

        with cf.ThreadPoolExecutor(runner.CORES) as pool:
            for k, rc, text, n in pool.map(one, range(16)):
                if rc != 0:
                    bad += 1
                    keep = "/tmp/reference-%d-%d.ndjson" % (seed, k)
                    shutil.copy(os.path.join(scratch, "t%d.ndjson" % k), keep)
                    at = max(0, text.find('"DIFF"'), text.find("rror"))
                    print("part %d of %d differs (%s): %s" % (k, n, keep, " ".join(text[at:at + 200].split())))
        print("%d images, %d decoded ones, %d parts differ" % (len(events), sum(len(e["images"]) + len(e["cuts"]) for e in events), bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
