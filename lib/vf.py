"""Orchestration shared by all checks: builds drivers from /repo's current tree, runs them on
stimuli, hands the observations to TLC for judgement against the TLA+ specification, writes evidence."""
import math
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)

class CheckError(Exception):
    """The check itself could not be carried out (exit 2): never a verdict about the code."""

# ------------------------------------------------------------------ build
BASE = ["-std=c++20", "-w", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + VERIF + "/harness",
        "-include", "cmath", "-include", "stdexcept"]
VARIANTS = {
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "sanp": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],   # no library assertions
    "opt": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
}
_hdr_hash = {}
def _headers_hash(root, skip=None):
    if root in _hdr_hash: return _hdr_hash[root]
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if skip and f.endswith(skip): continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    _hdr_hash[root] = h.hexdigest()
    return _hdr_hash[root]

def _compile(src, flags, inchash):
    text = open(src, "rb").read()
    key = hashlib.sha256(("\0".join(flags) + src + inchash).encode() + text).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj): return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stderr[-4000:]))
    os.replace(tmp, obj)
    return obj

def build(driver, dirs, variant="san", extra=()):
    """Compile the listed source directories of /repo (recursively) and harness/<driver>.cpp."""
    flags = BASE + VARIANTS[variant] + list(extra)
    inchash = _headers_hash(REPO + "/include") + _headers_hash(VERIF + "/harness") + _headers_hash(REPO + "/src", ".cpp")
    def sources(ds):
        s = []
        for d in ds:
            s += glob.glob(os.path.join(REPO, "src", d, "**", "*.cpp"), recursive=True)
        return sorted(set(s))
    drv = os.path.join(VERIF, "harness", driver + ".cpp")
    last = None
    for attempt in (dirs, ["."]):
        srcs = sources(attempt)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda s: _compile(s, flags, inchash), [drv] + srcs))
        key = hashlib.sha256(("\0".join(objs) + "\0".join(flags)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (driver, variant, key))
        if os.path.exists(exe): return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", *VARIANTS[variant], *objs, "-o", tmp, "-lpthread"], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, exe)
            return exe
        last = r.stderr[-4000:]
    raise CheckError("link failed:\n" + last)

# ------------------------------------------------------------------ numbers
def hx(x):
    """A double as an exact hexadecimal literal ("nan"/"inf" spelled out)."""
    if isinstance(x, str): return x
    if x != x: return "nan"
    if x == float("inf"): return "inf"
    if x == float("-inf"): return "-inf"
    return float(x).hex()

def nextafter(x, up=True):
    import math
    return math.nextafter(x, math.inf if up else -math.inf)

def nudged(prob, far=-1.5, near=-8, keep=lambda x: True, ulp=False):
    """Values that differ only slightly from the one given before: a change is a change however small it is."""
    def deco(f):
        last = [None]
        def g(rng, *a, **k):
            x = last[0]
            if all(a) and x is not None and math.isfinite(x) and rng.random() < prob:
                e = 10 ** rng.uniform(near, far) * rng.choice([1, -1])
                y = nextafter(x, e > 0) if ulp and rng.random() < 0.3 else x * (1 + e) if x else abs(e)
                if keep(y): last[0] = y; return y
            y = f(rng, *a, **k)
            if isinstance(y, float) and keep(y) and all(a): last[0] = y
            return y
        return g
    return deco

# ------------------------------------------------------------------ driver runs
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77", LC_ALL="C")

def run_driver(exe, lines, work, case_timeout=20, env=None, tag="d", shards=None):
    """lines: list of (id, token-line). Returns {id: observation}; a case on which the process dies
    or hangs is observed as {"st": "crash"/"hang"}; the run resumes with the next case."""
    if shards is None: shards = NCPU if len(lines) >= 64 else 1
    if shards > 1:
        parts = [lines[i::shards] for i in range(shards)]
        res = {}
        with cf.ThreadPoolExecutor(shards) as ex:
            for r in ex.map(lambda k: run_driver(exe, parts[k], work, case_timeout, env, "%s%d" % (tag, k), 1), range(shards)):
                res.update(r)
        return res
    res, todo, n = {}, list(lines), 0
    crashes = 0
    while todo:
        n += 1
        inp, outp = os.path.join(work, "%s.%d.in" % (tag, n)), os.path.join(work, "%s.%d.out" % (tag, n))
        with open(inp, "w") as f:
            for i, l in todo: f.write("%s %s\n" % (i, l))
        p = subprocess.Popen([exe, inp, outp, str(case_timeout)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             env=dict(ENV, **(env or {})), start_new_session=True)
        try:
            err = p.communicate(timeout=max(600, case_timeout * 3))[1]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); err = p.communicate()[1]
        begun, done = None, 0
        if os.path.exists(outp):
            for l in open(outp, errors="replace"):
                if not l.endswith("\n"): break
                if l.startswith("B "): begun = l[2:].strip()
                elif l.startswith("E "):
                    try: o = json.loads(l[2:])
                    except ValueError: break
                    res[begun] = o; begun = None; done += 1
        if p.returncode == 0 and done == len(todo): break
        if begun is None:
            raise CheckError("driver %s ended with %s without naming a case: %s" % (os.path.basename(exe), p.returncode, err[-2000:]))
        kind = "hang" if p.returncode == 99 or p.returncode == -9 else "crash"
        res[begun] = {"st": kind, "detail": "exit %s %s" % (p.returncode, summarise(err))}
        k = [i for i, _ in todo].index(begun)
        todo = todo[k + 1:]
        crashes += 1
        if crashes > 40:
            for i, _ in todo: res[i] = {"st": "skipped"}
            break
    return res

def tsan(c, exe, args):
    """A command that runs a ThreadSanitizer build here (it may need address-space randomisation off), or None."""
    env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1"}
    for p in ([], ["setarch", "-R"]):
        try: ok = subprocess.run(p + [exe] + args, capture_output=True, env=dict(ENV, **env)).returncode in (0, 2)
        except OSError: ok = False
        if ok: break
    else:
        c.notes["tsan"] = "not available in this sandbox"; return None, env
    if not p: return exe, env
    w = os.path.join(c.work, "tsan.sh")
    with open(w, "w") as f: f.write('#!/bin/sh\nexec setarch -R %s "$@"\n' % exe)
    os.chmod(w, 0o755)
    return w, env

def summarise(err):
    t = err.decode(errors="replace") if isinstance(err, bytes) else err
    ls = [l for l in t.splitlines() if "ERROR" in l or "runtime error" in l or "Assertion" in l or "what()" in l]
    return "; ".join(ls[:3])[:500]

# ------------------------------------------------------------------ TLC
def java_ready():
    d = os.path.join(BUILD, "java")
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    key = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    stamp = os.path.join(d, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key: return d
    os.makedirs(d, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", TLAJARS, "-d", d, *src], capture_output=True, text=True)
    if r.returncode: raise CheckError("javac failed: " + r.stderr[-2000:])
    open(stamp, "w").write(key)
    return d

class Tlc:
    pass

def tlc(module, cfg, work, env=None, args=(), workers=None, timeout=800, heap="6g", name=None):
    """Run TLC on spec/<module>.tla with the given cfg text. Returns counts, printed tuples and the error text."""
    d = java_ready()
    name = name or module
    md = os.path.join(work, "tlc-" + name)
    shutil.rmtree(md, ignore_errors=True); os.makedirs(md)
    cfgp = os.path.join(md, name + ".cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:optspec.RatOverrides",
           "-cp", TLAJARS + ":" + d, "tlc2.TLC", "-metadir", os.path.join(md, "states"), "-noGenerateSpecTE",
           "-workers", str(workers or NCPU), "-config", cfgp, *args, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, **(env or {})), cwd=md, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + name)
    out = r.stdout
    t = Tlc()
    t.out, t.rc = out, r.returncode
    open(os.path.join(md, "log"), "w").write(out + r.stderr)
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found, (\d+) states left", out)
    t.generated = int(m[-1][0]) if m else 0
    t.distinct = int(m[-1][1]) if m else 0
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    t.depth = int(m[-1]) if m else 0
    t.ok = r.returncode == 0 and "Model checking completed. No error has been found." in out
    if not t.ok and "-simulate" in args and r.returncode == 0: t.ok = True
    t.prints = [l for l in out.splitlines() if l.startswith("<<")]
    t.log = os.path.join(md, "log")
    return t

def model_check(module, cfg, work, **kw):
    """Exhaustive check of the specification itself. A violation here is an error of the specification."""
    t = tlc(module, cfg, work, **kw)
    if not t.ok:
        raise CheckError("the specification %s fails its own model check:\n%s" % (module, t.out[-3000:]))
    if t.distinct < 1: raise CheckError("TLC explored no state of " + module)
    return t

def judge(module, cases, work, name=None, extra_cfg="", timeout=800):
    """cases: list of dicts with an "id". The specification decides each; returns {id: reason} of the rejected ones."""
    if not cases: raise CheckError("no cases for " + module)
    name = name or module
    path = os.path.join(work, name + ".cases.ndjson")
    with open(path, "w") as f:
        for c in cases: f.write(json.dumps(c) + "\n")
    t = tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + extra_cfg, work, env={"CASES": path}, name=name, timeout=timeout)
    if not t.ok: raise CheckError("TLC failed while judging %s:\n%s" % (name, t.out[-3000:]))
    if t.distinct != 2 * len(cases):
        raise CheckError("TLC judged %d of %d cases of %s" % (t.distinct // 2, len(cases), name))
    rej = {}
    for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(.*?)\s*>>', t.out, re.S):    # TLC breaks long tuples over several lines
        rej[m.group(1)] = re.sub(r"\s+", " ", m.group(2))
    if t.out.count('"REJECT"') != len(rej): raise CheckError("TLC's verdicts of %s could not be read" % name)
    return rej, t

def validate_traces(module, traces, work, name=None, extra_cfg="", timeout=800):
    """traces: list of {"id":..., "ev":[...]}. Returns ({id: length of the longest accepted prefix} of rejected ones, tlc)."""
    if not traces: raise CheckError("no traces for " + module)
    name = name or module
    path = os.path.join(work, name + ".traces.ndjson")
    with open(path, "w") as f:
        for c in traces: f.write(json.dumps(c) + "\n")
    t = tlc(module, "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n" + extra_cfg, work, env={"CASES": path}, name=name, timeout=timeout)
    if not t.ok: raise CheckError("TLC failed while validating %s:\n%s" % (name, t.out[-3000:]))
    acc, far = set(), {}
    for m in re.finditer(r'<<\s*"ACCEPT",\s*"([^"]*)"\s*>>', t.out): acc.add(m.group(1))
    for m in re.finditer(r'<<\s*"AT",\s*"([^"]*)",\s*(\d+)\s*>>', t.out): far[m.group(1)] = max(far.get(m.group(1), 0), int(m.group(2)))
    rej = {}
    for c in traces:
        if c["id"] not in acc: rej[c["id"]] = far.get(c["id"], 0)
    return rej, t

# ------------------------------------------------------------------ check life cycle
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(OUT, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = 0
        self.notes, self.samples, self.assumptions = {}, [], []
        self.violations = []          # (case, reason)
        self.known = load_known(prop)
        self.exhaustive = True

    @property
    def thorough(self): return self.tier == "thorough"
    def scale(self, q, t): return t if self.thorough else q

    def model(self, module, cfg, **kw):
        t = model_check(module, cfg, self.work, **kw)
        self.states += t.distinct; self.transitions += t.generated
        self.notes.setdefault("model_checked", []).append({"module": kw.get("name") or module, "distinct_states": t.distinct,
                                                           "transitions": t.generated, "depth": t.depth})
        return t

    def sample(self, x):
        if len(self.samples) < 4: self.samples.append(x)

    def conform(self, module, mk, exe, stimuli, kind="judge", name=None, case_timeout=20, extra_cfg="", env=None, shards=None, repeat=True):
        """stimuli: list of {"id", "line", ...}. mk(stimulus, observation) -> the case handed to TLC.
        Cases rejected once are executed and judged a second time before they are reported
        (not with repeat=False: an interleaving need not come back, and one bad history is enough)."""
        name = name or module
        def once(stim, tag, only=None):
            obs = run_driver(exe, [(s["id"], s["line"]) for s in stim], self.work, case_timeout, tag=name + tag, env=env, shards=shards)
            good, bad = [], {}
            for s in stim if only is None else only:
                o = obs.get(s["id"])
                if o is None: raise CheckError("no observation for case " + s["id"])
                if o.get("st") in ("crash", "hang"): bad[s["id"]] = "the code under test %s: %s" % ("crashed" if o["st"] == "crash" else "did not finish", o.get("detail", "")); continue
                if o.get("st") == "skipped": continue
                if o.get("st") == "driver": raise CheckError("driver refused case %s: %s" % (s["line"], o))
                good.append((s, mk(s, o)))
            if good:
                f = judge if kind == "judge" else validate_traces
                rej, t = f(module, [c for _, c in good], self.work, name=name + tag, extra_cfg=extra_cfg)
                for i, why in rej.items():
                    bad[i] = ("rejected by the specification: %s" % why) if kind == "judge" else ("trace leaves the specification after event %s" % why)
                if kind == "trace": self.states += t.distinct; self.transitions += t.generated
            return bad, {s["id"]: c for s, c in good}, len(good)
        bad, cases, n = once(stimuli, "")
        self.validated += n
        self.notes[name + "_cases"] = n
        for s in stimuli[:2]:
            if s["id"] in cases: self.sample(trim(cases[s["id"]]))
        if bad:
            again = [s for s in stimuli if s["id"] in bad][:60]
            # everything is executed again, so that what one case leaves behind for another is there again
            bad2, cases2, _ = once(stimuli, ".again", again) if repeat else (bad, cases, 0)
            for s in again:
                if s["id"] in bad2:
                    self.violations.append({"module": module, "id": s["id"], "stimulus": s, "reason": bad2[s["id"]],
                                            "case": cases2.get(s["id"]), "driver": exe})
            if len(bad2) < len(again): self.notes["unrepeated_rejections"] = len(again) - len(bad2)
        return bad

    def finish(self):
        unknown, seen = [], set()
        for v in self.violations:
            k = next((k for k in self.known if k["match"] in json.dumps(v["stimulus"])), None)
            if k: seen.add(k["what"])
            else: unknown.append(v)
        for w in sorted(seen): print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples, "exhaustive": False}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions + ["TLC and the Rat overrides evaluate the specification correctly",
                                                 "the driver reports what the public API returned"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(unknown)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if unknown:
            rp = os.path.join(OUT, "replay-%s.json" % self.prop)
            with open(rp, "w") as f: json.dump(unknown[:20], f, indent=1)
            for v in unknown[:5]: print("  %s: %s" % (v["id"], str(v["reason"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.validated == 0: raise CheckError("nothing was validated against the implementation")
        print("OK property=%s states=%d validated=%d wall=%.1fs" % (self.prop, self.states, self.validated, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0

def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."

def load_known(prop):
    """known_findings.jsonl: one JSON object per line; entries with "status": "fixed" suppress nothing."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l or l.startswith("#"): continue
            if l.startswith("fixed:"): continue
            k = json.loads(l)
            if k.get("property") == prop and k.get("status") == "known": res.append(k)
    return res
