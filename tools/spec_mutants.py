#!/usr/bin/env python3
"""Are the models able to fail?  Changes the specification in a scratch copy, one place at a time, and
runs a model that must find it.  Not part of any check: run it after changing spec/ or mc/."""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MUTANTS = [
    ("GfwxGolomb", "IF x > 0 THEN 1 ELSE 0, 1", "IF x > 0 THEN 0 ELSE 1, 1", "MC_Codes"),
    ("GfwxGolomb", "IF pot < 20 THEN pot + 4 ELSE 24", "IF pot < 19 THEN pot + 4 ELSE 24", "MC_OneCode"),
    ("GfwxGolomb", "MinI(pot + 4, 108)", "MinI(pot + 3, 108)", "MC_OneCode"),
    ("GfwxBits", "IF z = m THEN p + m ELSE p + z + 1", "p + z + 1", "MC_Codes"),
    ("GfwxBits", "IF p < 0 \\/ p + n > src.bits THEN Failed", "IF p < 0 \\/ p + n > src.bits + 8 THEN Failed", "MC_Codes"),
    ("GfwxBlock", "IF run = 0 /\\ v <= 0 THEN v - 1", "IF run = 0 /\\ v < 0 THEN v - 1", "MC_Block"),
    ("GfwxBlock", "a == IF enc = Fast THEN AfterFast(st, d[1])", "a == IF enc = Fast THEN AfterFast(st, fix(d[1]))", "MC_Block"),
    ("GfwxBlock", "vs == IF rc # 0 /\\ v < 0 THEN v + 1 ELSE v", "vs == v", "MC_Block"),
    ("GfwxBlock", "n4 == n3 /\\ x + 4 * s < sx", "n4 == n3 /\\ x + 4 * s <= sx", "MC_Footprint"),
    ("GfwxBlock", "IF p >= size THEN p - 2 * s ELSE p", "p", "MC_Footprint"),
    ("GfwxBlock", "A(x - 2 * s, y) ELSE 0", "A(x - s, y) ELSE 0", "MC_Footprint"),
    ("GfwxBlock", "q4 == IF n4 THEN A(x + 4 * s, y - 4 * s)", "q4 == IF n4 THEN A(x + 4 * s, y - 3 * s)", "MC_Footprint"),
    ("GfwxBlock", "[i \\in 1..((CeilDiv(sx, s)) \\div 2)", "[i \\in 1..(CeilDiv(sx, 2 * s))", "MC_Footprint"),
    ("GfwxBlock", "ELSE IF run > 0\n", "ELSE IF run > 1\n", "MC_Block"),
    ("GfwxWavelet", "Pass(Pass(Pass(Pass(img, W, H, f, s, \"v\", \"u\", -1), W, H, f, s, \"v\", \"p\", -1)",
     "Pass(Pass(Pass(Pass(img, W, H, f, s, \"v\", \"p\", -1), W, H, f, s, \"v\", \"u\", -1)", "MC_Wavelet"),
    ("GfwxWavelet", "c0 == IF x - 3 * s >= 0 THEN V(x - 3 * s)", "c0 == IF x - 2 * s >= 0 THEN V(x - 2 * s)", "MC_Wavelet"),
    ("GfwxWavelet", "ELSE Mod(x, 2 * s) = 0 /\\ x > 0", "ELSE Mod(x, 2 * s) = 0", "MC_Wavelet"),
    ("GfwxWavelet", "s >= MinI(W, H) THEN v", "s >= MaxI(W, H) THEN v", "MC_Quant"),
    ("GfwxWavelet", "Quant1(v, q, maxq) == TDiv(v * q, maxq)", "Quant1(v, q, maxq) == (v * q) \\div maxq", "MC_Quant"),
    ("GfwxWavelet", "IF v < 0 THEN -((maxq \\div 2 - v * maxq) \\div q)", "IF v < 0 THEN -((maxq - v * maxq) \\div q)", "MC_Quant"),
    ("GfwxWavelet", "QualityAt(MinI(maxq, 2 * q), maxq, s \\div 2)", "QualityAt(2 * q, maxq, s \\div 2)", "MC_Quant"),
    ("GfwxHeader", "Mod(m[1], 4) * 16384", "Mod(m[1], 2) * 16384", "MC_Header"),
    ("GfwxHeader", "+ 8192 * (h.quality - 1)", "+ 8192 * h.quality", "MC_Header"),
    ("GfwxHeader", "/\\ Mod(h.metadata_size[2], 4) = 0", "/\\ Mod(h.metadata_size[2], 2) = 0", "MC_Header"),
    ("GfwxHeader", "/\\ f.chroma_scale <= 255", "/\\ TRUE", "MC_Header"),
    ("GfwxHeader", "ChromaQuality(quality, cs) == MaxI(1, ", "ChromaQuality(quality, cs) == MaxI(0, ", "MC_Header"),
    ("GfwxColor", "Wrap16(planes[t.dest][i] - term[i])", "Wrap16(planes[t.dest][i] + term[i])", "MC_Color"),
    ("GfwxColor", "IF c[2] < 0 \\/ c[1] >= n THEN [ok |-> FALSE", "IF c[2] < 0 \\/ c[1] > n THEN [ok |-> FALSE", "MC_Color"),
    ("GfwxColor", "Inter(c, ch, size, i) == (c \\div ch) * size * ch + Mod(c, ch) + i * ch + 1",
     "Inter(c, ch, size, i) == (c \\div ch) * size * ch + Mod(c + 1, ch) + i * ch + 1", "MC_Planes"),
    ("GfwxFrame", "starts[k] > body \\/", "starts[k] >= body \\/", "MC_Session"),
    ("GfwxFrame", "(IF sd > 1 THEN 4 * table ELSE 0)", "(IF sd > 1 THEN 8 * table ELSE 0)", "MC_Session"),
    ("GfwxFrame", "IF c.encoder = Turbo THEN FullQ(q, d) ELSE q", "q", "MC_Session_thorough:MC_Session"),
    ("GfwxFrame", "y0 == Mod(k \\div nx, ny) * e", "y0 == Mod(k \\div ny, ny) * e", "MC_Session"),
    ("GfwxSession", "Cardinality({k \\in 1..Len(e) : e[k] <= n})", "Cardinality({k \\in 1..Len(e) : e[k] < n})", "MC_Session"),
    ("GfwxSession", "4 * lay[k].table)", "2 * lay[k].table)", "MC_Session"),
    ("GfwxPieces", "Pairs(n, step) == (CeilDiv(n, step)) \\div 2", "Pairs(n, step) == n \\div (2 * step)", "MC_Pieces"),
    ("GfwxPieces", "IF acc[2] >= n THEN acc", "IF acc[2] > n THEN acc", "MC_Pieces"),
    ("GfwxFrame", "MinI(q * P2(MinI(d, 11)), 2048)", "MinI(q * P2(MinI(d, 11)), 1024)", "MC_Session_thorough:MC_Session"),
    ("GfwxStream", "n <= Left(s)", "n < Left(s)", "MC_Stream"),
    ("GfwxStream", "[s EXCEPT !.at = @ + n]", "[s EXCEPT !.at = @ + n + 1]", "MC_Stream"),
    ("GfwxStream", "CASE ans = \"some\" -> n \\in 1..asked", "CASE ans = \"some\" -> n \\in 0..asked + 1", "MC_Stream"),
    ("GfwxStream", "OTHER -> [s EXCEPT !.fault = TRUE]", "OTHER -> s", "MC_Stream"),
    ("GfwxStream", "[] ans = \"again\" -> s\n", "[] ans = \"again\" -> [s EXCEPT !.fault = TRUE]\n", "MC_Stream"),
    ("MC_Room", "to == Base + tail + byte", "to == Base + tail + byte + (IF moved > 1 THEN 1 ELSE 0)", "MC_Room"),
    ("MC_Room", "IF written[b] + WB > Share", "IF written[b] + WB > Share + 1", "MC_Room"),
]


def main():
    bad = 0
    for f, old, new, model in MUTANTS:
        cfg, mod = (model.split(":") + [model])[:2] if ":" in model else (model, model)
        tmp = tempfile.mkdtemp(prefix="specmut.")
        try:
            for d in ("spec", "mc"):
                shutil.copytree(os.path.join(ROOT, d), os.path.join(tmp, d))
            d = "mc" if f.startswith("MC_") else "spec"
            p = os.path.join(tmp, d, f + ".tla")
            t = open(p).read()
            if t.count(old) < 1:
                print("NOT APPLICABLE %s: %s" % (f, old[:60]))
                bad += 1
                continue
            open(p, "w").write(t.replace(old, new, 1))
            r = subprocess.run(["timeout", "300", "java", "-Xmx6g", "-Xss128m", "-XX:+UseParallelGC",
                                "-DTLA-Library=%s/spec:%s/mc" % (tmp, tmp), "-cp", JARS, "tlc2.TLC", "-workers", "8",
                                "-metadir", tmp + "/meta", "-noGenerateSpecTE", "-config", cfg + ".cfg", mod + ".tla"],
                               cwd=tmp + "/mc", capture_output=True, text=True)
            found = r.returncode not in (0, 124)
            why = [l for l in r.stdout.splitlines() if "violated" in l or l.startswith("Error")][:1]
            print("%-8s %-12s %-10s %s  (%s)" % ("killed" if found else "SURVIVED", f, mod, old[:50].replace("\n", " "), why[0][:90] if why else ""), flush=True)
            bad += not found
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if bad else 0)


main()
