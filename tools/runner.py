"""Runs one check: builds the recorders, records traces from the real code, has TLC validate
them against the specification, has TLC check the models, and writes the evidence file."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 8))


class ToolError(Exception):
    """the check could not give an answer"""


class Violation(Exception):
    def __init__(self, text, replay=None):
        super().__init__(text)
        self.text = text
        self.replay = replay


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class Build:
    """A flavour of the harness: features and profile."""

    FLAVOURS = {
        "default": (["--release"], "release"),
        "guarded": (["--profile", "guarded"], "guarded"),
        "par": (["--release", "--no-default-features", "--features", "par"], "release"),
        "seq": (["--release", "--no-default-features"], "release"),
    }

    @staticmethod
    def target(flavour):
        return os.path.join(VERIF, "harness", "target", flavour)

    @staticmethod
    def build(flavour, bins):
        args, prof = Build.FLAVOURS[flavour]
        target = Build.target(flavour)
        os.makedirs(target, exist_ok=True)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env["RUSTFLAGS"] = "-Awarnings"
        stamp = os.path.join(target, "source_hash")
        now = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            # never trust time stamps of a changed tree
            subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "gfwx"] + (["--release"] if prof == "release" else ["--profile", prof]),
                           cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--offline", "--locked", "-q"] + args
        for b in bins:
            cmd += ["--bin", b]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise ToolError("the recorders do not build against /repo:\n" + p.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(now)
        return {b: os.path.join(target, prof, b) for b in bins}


LIVE = set()
LIVE_LOCK = threading.Lock()
STOPPING = threading.Event()


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def stop_all():
    STOPPING.set()
    with LIVE_LOCK:
        for p in list(LIVE):
            kill_group(p)


def on_term(signum, frame):
    stop_all()
    os._exit(2)


def run_killable(cmd, timeout, **kw):
    """returns (rc or None on timeout, stdout+stderr)"""
    with LIVE_LOCK:
        if STOPPING.is_set():
            return None, "stopped"
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", start_new_session=True, **kw)
        LIVE.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill_group(p)
        out, _ = p.communicate()
        return None, out
    finally:
        with LIVE_LOCK:
            LIVE.discard(p)


def tlc(module_dir, module, cfg, env, timeout, workers=1, heap="3g", extra=()):
    meta = tempfile.mkdtemp(prefix="gvtlc.")
    try:
        libs = os.path.join(VERIF, "spec") + os.pathsep + os.path.join(VERIF, "mc")
        cmd = ["java", "-Xmx" + heap, "-Xss128m",
               "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + meta,
               "-DTLA-Library=" + libs, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("KNOWN_"):
                del e[k]
        e.update(env)
        return run_killable(cmd, timeout, cwd=module_dir, env=e)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
DEPTH = re.compile(r"depth of the complete state graph search is (\d+)")
PROGRESS_FAIL = ("StackOverflowError", "OutOfMemoryError", "java.lang.NoClassDefFoundError",
                 "Could not reserve enough space", "Parsing or semantic analysis failed",
                 "Cannot find source file", "unable to create native thread", "Could not parse")


def load_known():
    """the lines "known: property=<id> finding=<id> <what fails>" of the known-findings file"""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) finding=(\S+) (.*)", line.strip())
            if m:
                out.append({"property": m.group(1), "finding": m.group(2), "what": m.group(3)})
    return out


class Check:
    def __init__(self, prop, plan, tier, seed):
        self.prop = prop
        self.plan = plan
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.kinds = {}
        self.models = []
        self.records = []
        self.samples = []
        self.known_seen = set()
        self.known = [k for k in load_known() if k["property"] == prop]
        self.scratch = tempfile.mkdtemp(prefix="gv_%s_" % prop)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        self.t0 = time.time()
        self.budget = float(os.environ.get("GV_BUDGET", "800" if not self.thorough else "6000"))

    def left(self):
        return max(5.0, self.budget - (time.time() - self.t0))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ replay files
    def save_replay(self, name, text, lines=()):
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s-%s.ndjson" % (self.prop, name))
        with open(path, "w") as f:
            for line in lines:
                f.write(line if line.endswith("\n") else line + "\n")
        with open(path + ".txt", "w") as f:
            f.write(text + "\n")
        return os.path.relpath(path, VERIF)

    # ------------------------------------------------------------------ recording
    def record(self, rec, exe):
        out = os.path.join(self.scratch, "rec_%s_%s" % (rec["topic"], rec.get("flavour", "default")))
        os.makedirs(out, exist_ok=True)
        gen = []
        if "gen" in rec:
            gen = [self.generate(rec, out)]
        shards = rec.get("shards", CORES)
        cmd = [exe, rec["topic"], str(self.seed), self.tier, str(shards), out] + gen + rec.get("extra", [])
        limit = min(self.left(), rec.get("timeout", 300) * (6 if self.thorough else 1))
        t = time.time()
        env = dict(os.environ)
        env.update(rec.get("env", {}))
        rc, text = run_killable(cmd, limit, cwd=out, env=env)
        marker = os.path.join(out, "current")
        what = open(marker).read() if os.path.exists(marker) else ""
        if rc is None:
            raise Violation("recorder did not finish within %d s; it was running: %s" % (limit, what),
                            self.save_replay("hang-" + rec["topic"], what + "\n" + text[-2000:]))
        if rc != 0:
            raise Violation("recorder died (%s); it was running: %s\n%s" % (rc, what, text[-2000:]),
                            self.save_replay("crash-" + rec["topic"], "rc %s\n%s\n%s" % (rc, what, text[-4000:])))
        files = []
        for k in range(shards):
            f = os.path.join(out, "trace_%d.ndjson" % k)
            if os.path.exists(f) and os.path.getsize(f):
                files.append(f)
        self.log("recorded %s (%s): %s in %.1f s" % (rec["topic"], rec.get("flavour", "default"), text.strip().splitlines()[-1] if text.strip() else "", time.time() - t))
        return files

    @staticmethod
    def flavours(rec):
        return rec.get("flavours", [rec.get("flavour", "default")])

    def record_all(self, rec, exes):
        """a record with several flavours: one trace that continues from flavour to flavour"""
        fls = self.flavours(rec)
        parts = [self.record(dict(rec, flavour=fl), exes[(fl, rec["bin"])]) for fl in fls]
        if len(parts) == 1:
            return parts[0]
        out = os.path.join(self.scratch, "joined_" + rec["topic"])
        os.makedirs(out, exist_ok=True)
        names = sorted({os.path.basename(f) for p in parts for f in p})
        files = []
        for n in names:
            dst = os.path.join(out, n)
            with open(dst, "w") as d:
                for p in parts:
                    for f in p:
                        if os.path.basename(f) == n:
                            with open(f) as src:
                                shutil.copyfileobj(src, d)
            files.append(dst)
        return files

    def generate(self, rec, out):
        """TLC writes what the recorder shall replay"""
        g = rec["gen"]
        path = os.path.join(out, "generated.ndjson")
        args = g.get("args", {})
        if self.thorough:
            args = dict(args, **g.get("thorough", {}))
        env = {k: str(v) for k, v in args.items()}
        env.update({"OUT": path, "SEED": str(self.seed)})
        t = time.time()
        extra = [x.replace("$SEED", str(self.seed)) for x in g.get("tlc", [])]
        rc, text = tlc(os.path.join(VERIF, "gen"), g["module"], g.get("cfg", g["module"] + ".cfg"), env,
                       self.left(), workers=g.get("workers", 1), extra=extra)
        if rc != 0 or not os.path.exists(path):
            raise ToolError("generator %s failed:\n%s" % (g["module"], text[-3000:]))
        m = STATES.search(text)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        self.log("generated %s in %.1f s" % (g["module"], time.time() - t))
        return path

    # ------------------------------------------------------------------ trace validation
    def validate_one(self, rec, path):
        env = {"TRACE": path}
        for k in self.known:
            env["KNOWN_" + k["finding"]] = "1"
        t = time.time()
        for attempt in (0, 1):
            rc, text = tlc(os.path.join(VERIF, "trace"), rec["module"], rec.get("cfg", "Trace.cfg"), env,
                           min(self.left(), 5000 if self.thorough else 600), heap=rec.get("heap", "3g"))
            if rc is None or any(w in text for w in PROGRESS_FAIL):
                if attempt == 0 and rc is not None and self.left() > 120:
                    continue
                raise ToolError("TLC gave no answer for %s on %s:\n%s" % (rec["module"], path, text[-3000:]))
            break
        return path, rc, text, time.time() - t

    def explain(self, rec, path, n):
        """cut out the session with event n (1-based) and let the specification say what it expected"""
        lines = open(path).read().splitlines()
        n = max(1, min(n, len(lines)))
        a = n - 1
        while a > 0 and (rec.get("whole") or not lines[a].startswith('{"new":true')):
            a -= 1
        session = lines[a:n]
        f = os.path.join(self.scratch, "session.ndjson")
        with open(f, "w") as fh:
            fh.write("\n".join(session) + "\n")
        env = {"TRACE": f, "EXPLAIN": "1"}
        for k in self.known:
            env["KNOWN_" + k["finding"]] = "1"
        rc, text = tlc(os.path.join(VERIF, "trace"), rec["module"], rec.get("cfg", "Trace.cfg"), env, min(self.left(), 120))
        at = text.find('"DIFF"')
        detail = text[at:at + 2500] if at >= 0 else text[-3000:]
        return session, detail

    def validate(self, rec, files):
        lens = {}
        for f in files:
            n = 0
            for line in open(f):
                n += 1
                if line.startswith('{"new":true'):
                    self.traces += 1
                m = re.search(r'"ev":"([^"]*)"', line)
                if m:
                    self.kinds[m.group(1)] = self.kinds.get(m.group(1), 0) + 1
                if len(self.samples) < 3 and len(line) < 1500:
                    self.samples.append(json.loads(line))
            lens[f] = n
            self.events += n
        return [(rec, f, lens[f]) for f in files]

    def run_validation(self, jobs):
        first = None
        pool = cf.ThreadPoolExecutor(max_workers=CORES)
        futs = {pool.submit(self.validate_one, rec, f): (rec, f, n) for rec, f, n in jobs}
        errors = []
        try:
            for fut in cf.as_completed(futs):
                rec, f, n = futs[fut]
                try:
                    path, rc, text, dt = fut.result()
                except ToolError as e:
                    errors.append(e)
                    continue
                m = STATES.search(text)
                if m:
                    self.transitions += int(m.group(1))
                    self.states += int(m.group(2))
                for k in re.findall(r'"KNOWN", "([A-Za-z0-9_]+)"', text):
                    self.known_seen.add(k)
                self.records.append({"module": rec["module"], "topic": rec["topic"],
                                     "flavour": rec.get("flavour", "default"), "events": n, "wall_s": round(dt, 1)})
                if rc == 0:
                    continue
                d = DEPTH.search(text)
                at = int(d.group(1)) if d else None
                if at is None:
                    # evaluation of an event failed: it is the one after the last state that was reached
                    m2 = re.findall(r"The error occurred when TLC was evaluating", text)
                    m3 = STATES.search(text)
                    at = int(m3.group(2)) if m3 else 1
                    if not m2 and "Error:" not in text:
                        errors.append(ToolError("TLC failed on %s:\n%s" % (f, text[-3000:])))
                        continue
                session, detail = self.explain(rec, f, at)
                replay = self.save_replay(rec["topic"], "event %d of %s is not a step of %s\n%s\n%s" % (
                    at, os.path.basename(f), rec["module"], detail, text[-1500:]), session)
                ev = session[-1]
                first = Violation("event %d is not a step of the specification %s:\n  %s\n%s" % (
                    at, rec["module"], ev[:600], detail[:3000]), replay)
                raise first
        finally:
            for fu in futs:
                fu.cancel()
            if first is not None:
                stop_all()
            pool.shutdown(wait=True, cancel_futures=True)
        if errors:
            raise errors[0]

    # ------------------------------------------------------------------ models
    def model(self, m):
        t = time.time()
        rc, text = tlc(os.path.join(VERIF, "mc"), m["module"], m.get("cfg", m["module"] + ".cfg"),
                       {k: str(v) for k, v in m.get("env", {}).items()},
                       min(self.left(), m.get("timeout", 300) * (8 if self.thorough else 1)), workers=m.get("workers", CORES), heap=m.get("heap", "6g"), extra=m.get("tlc", ()))
        # a model says something about the specification alone: when time runs out it is reported as
        # incomplete and the verdict is that of the traces
        complete = rc is not None
        if rc not in (0, None):
            raise ToolError("model %s does not hold or failed:\n%s" % (m["module"], text[-6000:]))
        s = STATES.findall(text)
        gen, dist = (int(s[-1][0]), int(s[-1][1])) if s else (0, 0)
        self.transitions += gen
        self.states += dist
        self.models.append({"module": m["module"], "cfg": m.get("cfg", m["module"] + ".cfg"),
                            "states_generated": gen, "distinct": dist,
                            "complete": complete and not m.get("simulate"), "wall_s": round(time.time() - t, 1)})
        self.log("model %s %s: %d distinct states in %.1f s" % (m["module"], m.get("cfg", ""), dist, time.time() - t))

    # ------------------------------------------------------------------ all of it
    def run(self):
        recs = [r for r in self.plan.get("records", []) if self.thorough or not r.get("thorough_only")]
        bins = {}
        for r in recs:
            for fl in self.flavours(r):
                bins.setdefault(fl, set()).add(r["bin"])
        exes = {}
        for fl, bs in bins.items():
            for b, p in Build.build(fl, sorted(bs)).items():
                exes[(fl, b)] = p
        self.log("built")
        jobs = []
        for r in recs:
            files = self.record_all(r, exes)
            jobs += self.validate(r, files)
        self.run_validation(jobs)
        self.log("validated %d traces, %d events" % (self.traces, self.events))
        for m in self.plan.get("models", []):
            if m.get("thorough_only") and not self.thorough:
                continue
            if m.get("quick_only") and self.thorough:
                continue
            self.model(m)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "events_by_kind": self.kinds,
                "models": self.models,
                "validations": self.records[:40],
                "samples": self.samples if self.samples else [{"note": "no event was short enough to show"}],
                "exhaustive": False,
            },
            "assumptions": self.plan.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": violations,
        }
        if self.known:
            ev["coverage"]["known_findings_seen"] = sorted(self.known_seen)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main(plans):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    c = Check(prop, plans[prop], tier, seed)
    try:
        c.run()
        for k in c.known:
            if k["finding"] in c.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        c.evidence(0)
        print("OK property=%s %d states, %d traces, %d events, %.1f s" % (prop, c.states, c.traces, c.events, time.time() - c.t0))
        return 0
    except Violation as v:
        c.evidence(1)
        print(v.text)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except ToolError as e:
        c.evidence(0)
        print("ERROR", e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
