"""Build the code under test, run it on scenarios, let TLC judge the recorded behaviours, report."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TLA = os.path.join(VERIF, "tla")
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


# ---------------------------------------------------------------- building
INC = (["-I%s/harness/stubs/inc" % VERIF, "-I%s/harness" % VERIF, "-I%s/harness/stubs" % VERIF])


def repo_includes():
    return ["-I" + p for p in sorted(glob.glob(REPO + "/*/include"))] + ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14"]


BASE = ["g++", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DFMT_HEADER_ONLY"]


def _tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "test", "maps", "docs", "rviz", "media")]
        files += [os.path.join(root, n) for n in names if n.endswith((".cpp", ".hpp", ".h", ".py"))]
    for root, _, names in os.walk(os.path.join(VERIF, "harness")):
        files += [os.path.join(root, n) for n in names if n.endswith((".cpp", ".hpp", ".h"))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def repo_sources(*dirs):
    out = []
    for d in dirs:
        out += sorted(glob.glob("%s/%s/**/*.cpp" % (REPO, d), recursive=True))
    return out


def build(name, sources, flags=(), link=(), app=None, force_include=()):
    """Compile sources (app: the translation unit whose main becomes app_main) and link; cached by content."""
    sources = list(sources)
    flags = list(flags)
    tree = _tree_hash(BASE)
    key = hashlib.sha256(repr((tree, name, sources, flags, list(link), app)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(out):
        return out
    odir = _mk(os.path.join(BUILD, "obj-" + tree))     # objects are shared between the programs of one tree

    def one(s):
        o = os.path.join(odir, hashlib.sha1(repr((s, flags, s == app)).encode()).hexdigest()[:16] + ".o")
        if os.path.exists(o):
            return s, o, None
        t = "%s.%d" % (o, os.getpid())
        r = subprocess.run(BASE + flags + INC + repo_includes() + (["-Dmain=app_main"] if s == app else []) + ["-c", s, "-o", t], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(t, o)
        return s, o, r
    objs = []
    sources.sort(key=lambda s: (s != app, -os.path.getsize(s)))      # the big ones first
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for s, o, r in ex.map(one, sources):
            if r is not None and r.returncode != 0:
                raise CheckError("does not compile: %s\n%s" % (s, r.stderr[:4000]))
            objs.append(o)
    t = "%s.%d" % (out, os.getpid())
    r = subprocess.run(["g++"] + flags + objs + ["-o", t] + list(link) + ["-lpthread"], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("does not link: %s\n%s" % (name, r.stderr[:4000]))
    os.rename(t, out)
    return out


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def java_classes():
    src = sorted(glob.glob(TLA + "/java/*.java"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:12]
    d = os.path.join(BUILD, "java-" + h)
    if not os.path.isdir(d):
        t = tempfile.mkdtemp(prefix="java-tmp", dir=_mk(BUILD))
        r = subprocess.run(["javac", "-cp", JAR, "-d", t] + src, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("javac: " + r.stderr[:2000])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, code, wall):
        self.out, self.code, self.wall = out, code, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = self.distinct = int(m[-1])


def tlc(module, cfg=None, env=None, workers="1", args=(), timeout=600, xmx="2g", cfg_text=None, scratch=None):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch or None)
    try:
        if cfg_text is not None:
            cfg = os.path.join(meta, module + ".cfg")
            with open(cfg, "w") as f:
                f.write(cfg_text)
        elif cfg is None:
            cfg = os.path.join(TLA, module + ".cfg")
        cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JAR + ":" + java_classes(),
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RealsOverrides", "-DTLA-Library=" + TLA,
               "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(args) + [os.path.join(TLA, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        return Tlc(r.stdout + r.stderr, r.returncode, time.time() - t)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_exhaust(module, cfg=None, ok_codes=(0,), **kw):
    """Model checking of the specification itself: it must hold (a failure is a broken model, not a violation)."""
    r = tlc(module, cfg, **kw)
    if r.code not in ok_codes:
        raise CheckError("TLC on %s: exit %d\n%s" % (module, r.code, r.out[-3000:]))
    return r


def tlc_behaviours(module, num, depth, seed, cfg=None, env=None, timeout=300):
    """Simulate a generator module; it prints <<"BEHAVIOUR", json>> for every complete behaviour."""
    r = tlc(module, cfg, env=env, timeout=timeout, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-deadlock"])
    out = parse_prints(r.out, "BEHAVIOUR")
    if r.code not in (0,) or not out:
        raise CheckError("TLC simulation of %s failed (%d)\n%s" % (module, r.code, r.out[-2000:]))
    return out, r


def tlc_all_behaviours(module, cfg=None, env=None, cfg_text=None, timeout=300, workers="4"):
    r = tlc(module, cfg, env=env, timeout=timeout, args=["-deadlock"], workers=workers, cfg_text=cfg_text)
    out = parse_prints(r.out, "BEHAVIOUR")
    if r.code != 0 or not out:
        raise CheckError("TLC enumeration of %s failed (%d)\n%s" % (module, r.code, r.out[-2000:]))
    return out, r


def parse_prints(text, tag):
    res = []
    for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, text):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res


# ---------------------------------------------------------------- running scenarios
def run_harness(binary, scenarios, scratch, limit=20, env=None, timeout=600):
    d = tempfile.mkdtemp(prefix="run-", dir=scratch)
    try:
        sf, of = os.path.join(d, "s.ndjson"), os.path.join(d, "o.ndjson")
        with open(sf, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ)
        e.update({"VF_LIMIT": str(limit), "VF_WORKERS": str(NCPU), "OMP_NUM_THREADS": "1"})
        e.update(env or {})
        try:
            r = subprocess.run([binary, sf, of, os.path.join(d, "wd")], capture_output=True, text=True, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out")
        if r.returncode != 0:
            raise CheckError("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        with open(of) as f:
            return [json.loads(line) for line in f]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(module, traces, scratch, cfg=None, chunks=None, timeout=800, xmx="2500m", env=None):
    """TLC decides for every trace whether it is a behaviour of the specification.
    Returns (rejected: {id: diagnosis}, stats)."""
    if not traces:
        raise CheckError("no traces to judge")
    ids = [t["id"] for t in traces]
    if len(set(ids)) != len(ids):
        raise CheckError("scenario ids not unique")
    weight = lambda t: len(json.dumps(t))
    n = chunks or min(NCPU, max(1, len(traces) // 4))
    parts, load = [[] for _ in range(n)], [0] * n
    for t in sorted(traces, key=weight, reverse=True):
        k = load.index(min(load))
        parts[k].append(t)
        load[k] += weight(t)
    files = []
    d = tempfile.mkdtemp(prefix="tr-", dir=scratch)
    try:
        for k, p in enumerate(parts):
            fn = os.path.join(d, "t%d.ndjson" % k)
            with open(fn, "w") as f:
                for t in p:
                    f.write(json.dumps(t) + "\n")
            files.append(fn)
        java_classes()

        def one(fn):
            e = {"TRACES": fn}
            e.update(env or {})
            return tlc(module, cfg, env=e, timeout=timeout, xmx=xmx, scratch=d)
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, files))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    accepted, why = set(), {}
    states = 0
    for r in rs:
        if r.code != 0:
            raise CheckError("TLC on %s: exit %d\n%s" % (module, r.code, r.out[-4000:]))
        states += r.distinct
        accepted |= set(re.findall(r'<<"ACCEPT", "([^"]*)"', r.out))
        for m in re.finditer(r'^<< ?"REJECT",\s*"([^"]*)",\s*(\d+),(.*?)(?=^<<\s*"(?:REJECT|ACCEPT)"|^Finished|^Model checking|^Progress|^Checking|\Z)', r.out, re.M | re.S):
            why.setdefault(m.group(1), (int(m.group(2)), re.sub(r"\s+", " ", m.group(3))[:6000]))
    rej = {}
    for i in ids:
        if i not in accepted:
            if i not in why:
                raise CheckError("no verdict on scenario %s by %s\n%s" % (i, module, rs[0].out[-1500:]))
            rej[i] = why[i]
    return rej, {"traces": len(traces), "states": states, "events": sum(len(t["events"]) for t in traces)}


# ---------------------------------------------------------------- the frame of a check
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.level = "model_checking"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, r, what):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append({"what": what, "states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)})

    def judged(self, module, traces, stats, rejected, scenarios, what):
        self.cov["traces_validated_against_impl"] += stats["traces"] - len(rejected)
        self.cov.setdefault("conformance", []).append(
            {"what": what, "spec": module, "traces": stats["traces"], "events": stats["events"], "states": stats["states"], "rejected": len(rejected)})
        if traces and len(self.cov["samples"]) < 4:
            t = traces[len(traces) // 2]
            self.cov["samples"].append(json.loads(_short({"spec": module, "id": t["id"], "params": t.get("params"), "events": t["events"][:6]})))

    def conform(self, module, binary, scenarios, what, limit=20, cfg=None, env=None, post=None, chunks=None, timeout=800):
        """Run scenarios on the code and judge the recorded behaviours; record violations that repeat."""
        seen = set()
        for i, s in enumerate(scenarios):
            if s["id"] in seen:
                raise CheckError("duplicate id " + s["id"])
            seen.add(s["id"])
        go = binary if callable(binary) else lambda sc: run_harness(binary, sc, self.scratch, limit, env)
        traces = go(scenarios)
        if post:
            traces = post(traces)
        rej, st = judge(module, traces, self.scratch, cfg, chunks=chunks, timeout=timeout)
        if rej:   # believe it only if the same scenario is rejected again
            again = [s for s in scenarios if s["id"] in rej]
            tr2 = go(again)
            if post:
                tr2 = post(tr2)
            rej2, _ = judge(module, tr2, self.scratch, cfg, timeout=timeout)
            by = {s["id"]: s for s in again}
            tby = {t["id"]: t for t in tr2}
            for i in rej2:
                self.violations.append({"spec": module, "what": what, "scenario": by[i], "trace": tby[i], "at_event": rej2[i][0], "diagnosis": rej2[i][1]})
        self.judged(module, traces, st, rej, scenarios, what)
        return traces, rej

    def finish(self):
        known = load_known(self.prop)
        new, listed = [], []
        for v in self.violations:
            k = next((k for k in known if k.get("match") and re.search(k["match"], v["scenario"]["id"] + " " + v["diagnosis"])), None)
            (listed if k else new).append((v, k))
        for k in known:
            if not k.get("fixed") and any(x[1] is k for x in listed):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.cov["known_findings_seen"] = len(listed)
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2)}
        if self.cov["traces_validated_against_impl"] == 0 and not new:
            raise CheckError("nothing validated")
        _mk(os.path.join(VERIF, "evidence"))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            d = _mk(os.path.join(BUILD, "replay"))
            p = os.path.join(d, "%s-%d.json" % (self.prop, self.seed))
            with open(p, "w") as f:
                json.dump([x[0] for x in new], f, indent=1)
            for v, _ in new[:5]:
                print("rejected: %s scenario=%s event=%d\n   %s" % (v["what"], v["scenario"]["id"], v["at_event"], v["diagnosis"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        c = self.cov
        print("OK property=%s traces=%d model_states=%d wall=%.1fs" % (self.prop, c["traces_validated_against_impl"], c["states"], time.time() - self.t0))
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def _short(o, limit=3000):
    s = json.dumps(o)
    if len(s) <= limit:
        return s
    return json.dumps({"truncated": s[:limit]})


def load_known(prop):
    fn = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def T(ns):
    return {"sec": int(ns // 1000000000), "nsec": int(ns % 1000000000)}


def num(x):
    return "%.17g" % x if x == x and abs(x) != float("inf") else ("nan" if x != x else ("inf" if x > 0 else "-inf"))
