import json, math, re
import vf
from vf import hx, nextafter
DIRS = ["random"]

CFG = """SPECIFICATION Spec
CONSTANTS
 Dims = {%s}
 K = %d
 MaxOps = %d
 Emit = %s
 Gens = {"g1", "g2", "g3"}
 Kinds = {"sobol", "faure", "pseudo"}
 Seeds = {1, 2, 7}
 GDims = {1, 2, 3}
INVARIANTS Perm Net InOrder Open01 Complete
CHECK_DEADLOCK FALSE
"""
def histories(c, n, ops):
    t = vf.tlc("RandomMC", CFG % ("", 4, ops, "TRUE"), c.work, name="RandomGen", workers=1,
               args=["-simulate", "num=%d" % n, "-depth", str(ops + 2), "-seed", str(c.seed + 3)], timeout=300)
    hs, seen = [], set()
    for l in t.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', l)
        if m and m.group(1) not in seen: seen.add(m.group(1)); hs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if len(hs) < n // 10: raise vf.CheckError("TLC generated only %d histories: %s" % (len(hs), t.out[-1500:]))
    c.rng.shuffle(hs)
    return hs[:n]

def C20(c):
    rng = c.rng
    dims = [1, 2, 3, 5, 8, 13, 52, 64] if not c.thorough else list(range(1, 65))
    c.model("RandomMC", CFG % (", ".join(map(str, dims)), c.scale(6, 8), c.scale(2, 3), "FALSE"))
    st = []
    for h in histories(c, c.scale(250, 2500), 18):
        seeds = {1: rng.choice([0, 1, rng.randint(0, 2000)]), 2: rng.choice([12345, rng.randint(2001, 10 ** 6)]), 7: rng.choice([rng.randint(10 ** 6 + 1, 5 * 10 ** 8 - 100)])}
        dm = {1: rng.choice([1, 2]), 2: rng.choice([2, 3, 4]), 3: rng.choice([3, 5, 8, 13])}
        out = []
        for e in h:
            if e["op"] == "new":
                s = seeds[e["seed"]]
                if e["kind"] == "faure" and s == 0: s = 1
                out.append("new %s %s %d %d" % (e["g"], e["kind"], dm[e["dim"]], s))
            elif e["op"] == "skip": out.append("skip %s %d" % (e["g"], rng.choice([1, 7, 63, 1000]) if e["n"] == 1 else rng.choice([64, 256, 4096, 9999])))
            elif e["op"] == "copy": out.append("copy %s %s" % (e["g"], e["to"]))
            else: out.append("draw %s %s %d" % (e["g"], e["law"], rng.choice([1, 1, 2, 3])))
        st.append("hist " + " ".join(out))
    # long runs: many points of one sequence, all dimensions, high indices
    for kind in ("sobol", "faure"):
        for d in [1, 2, 3, 4, 5, 7, 11, 12, 16, 31, 52, 64] + [rng.randint(1, 64) for _ in range(c.scale(6, 80))]:
            for s in [1, 2, rng.randint(1, 200), rng.randint(1, 10 ** 6), rng.randint(10 ** 6, 4 * 10 ** 8)] + ([0] if kind == "sobol" else []):
                st.append("hist new g1 %s %d %d draw g1 rec %d" % (kind, d, s, min(max(3 * d + 2, 30), 160)))
        for d in (65, 100, 252, 365, 600, 1000):
            st.append("hist new g1 %s %d %d draw g1 rec %d" % (kind, d, rng.randint(1, 10 ** 5), 2 * d + 3))
        for n in (255, 511, 1000, 4095, 10000, 65535, 200000) + ((3 * 10 ** 6,) if c.thorough else ()):     # far into a sequence, in one go
            d = rng.choice([1, 2, 3, 7, 12, 52]); st.append("hist new g1 %s %d %d skip g1 %d draw g1 rec %d skip g1 %d draw g1 snd 5" % (kind, d, rng.randint(1, 999), n, d + 2, rng.randint(1, n)))
        for s in (2 ** 31 - 1, 2 ** 31, 2 ** 31 + 12345, 2 ** 32 - 50):
            st.append("hist new g1 %s %d %d draw g1 rec 30" % (kind, rng.choice([1, 3, 7]), s))
    # pseudo-random: same and different seeds side by side, mixed laws, boundary seeds
    for _ in range(c.scale(60, 500)):
        pool = [0, 1, 2, 42, 5489, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randint(0, 2 ** 32 - 1)]
        a, b = rng.sample(pool, 2)
        laws = [rng.choice(["snd", "normal", "unif", "exp", "gamma", "poisson", "rec"]) for _ in range(rng.randint(2, 9))] + ["snd"]
        out = ["new g1 pseudo %d %d new g2 pseudo %d %d new g3 pseudo %d %d" % (rng.choice([1, 5]), a, rng.choice([1, 5]), a, 5, b)]
        seqs = [[("g%d" % k, l) for l in laws] for k in (1, 2, 3)]
        while any(seqs):
            q = rng.choice([q for q in seqs if q]); g, l = q.pop(0); out.append("draw %s %s 1" % (g, l))
        if rng.random() < 0.2: n = rng.choice([624, 1000, 50000]); out.append("skip g1 %d skip g2 %d skip g3 %d draw g1 snd 2 draw g2 snd 2 draw g3 snd 2" % (n, n, n))
        if rng.random() < 0.3: out.append("copy g1 g4 draw g1 snd 3 draw g4 snd 3 draw g2 snd 3")
        st.append("hist " + " ".join(out))
    # generators that seed themselves: each has a sequence of its own
    for _ in range(c.scale(10, 60)):
        k = rng.randint(2, 6); law = rng.choice(["snd", "normal", "rec"])
        out = ["new g%d free %d 0" % (i, rng.choice([1, 4])) for i in range(k)] + ["new h pseudo 1 %d" % rng.choice([0, 1, 42, 5489])]
        out += ["draw %s %s 1" % (g, l) for l in (law, "snd", "snd") for g in ["g%d" % i for i in range(k)] + ["h"]]
        st.append("hist " + " ".join(out + ["copy g0 h draw g0 snd 2 draw h snd 2"]))
    exe = vf.build("drv_random", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("RandomTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace")

def model(c):
    c.model("DistsMC", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n Laws <- LawsDef\nINVARIANTS Moments Monotone QSym\nCHECK_DEADLOCK FALSE\n" % c.scale(150, 600))

def judge(c, st, variant):
    exe = vf.build("drv_random", DIRS, variant=variant)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("DistsJudge", lambda s, o: dict(o["c"], id=s["id"]), exe, st, case_timeout=60)

def C21(c):
    rng = c.rng
    model(c)
    ps = [0.5, nextafter(0.5), nextafter(0.5, False), 0.08, 0.92, 0.079999999, 0.0800001, 0.25, 0.75, 1e-12, 1 - 1e-12]
    for e in (0.08, 0.92, 0.42, 0.58, 0.02425, 1 - 0.02425, 0.01, 0.99, 0.1, 0.9, 0.001, 0.999):
        x = e
        for _ in range(3): ps += [x, nextafter(x)]; x = nextafter(x, False)
    bad = [0.0, -0.0, 1.0, -5e-324, nextafter(1.0), -1.0, 2.0, 1e300, -1e300, float("inf"), -1e-17]
    ps += [5e-324, 1e-300, 1e-100, 1e-20, 2.0 ** -53, 2.0 ** -54, 1 - 2.0 ** -53, 1 - 2.0 ** -52]
    for _ in range(c.scale(60, 600)): e = rng.uniform(-300, -12); ps += [10 ** e, 1 - 10 ** rng.uniform(-15.9, -12)]
    ps += [k / 512 for k in range(1, 512)]
    n = c.scale(3000, 40000)
    for _ in range(n // 2): ps.append(rng.random())
    for _ in range(n // 4):
        p = 10 ** rng.uniform(-12, -0.5); ps += [p, 1 - p]
    ps = [p for p in ps if 0 < p < 1]
    st = ["q %s" % hx(p) for p in ps] + ["q %s" % hx(p) for p in bad if p == p and abs(p) != float("inf")]
    for _ in range(c.scale(40, 400)):
        w = 10 ** rng.uniform(-9, -1); m = rng.choice([rng.random(), 0.08, 0.92, 0.5, 10 ** rng.uniform(-10, -1)])
        qs = sorted({p for p in (m + w * m * (k - 20) / 20 for k in range(41)) if 1e-12 < p < 1 - 1e-12})
        if qs: st.append("m %d %s" % (len(qs), " ".join(hx(p) for p in qs)))
    qs = sorted(rng.sample(ps, 400)); st.append("m %d %s" % (len(qs), " ".join(hx(p) for p in qs)))
    for ty, a, b in (("normal", 0.0, 1.0), ("normal", 2.0, 3.0), ("uniform", 0.0, 1.0), ("exp", 1.0, 0.0), ("gamma", 1.0, 1.0), ("poisson", 1.0, 0.0)):
        st.append("p %s %s %s" % (ty, hx(a), hx(b)))
    judge(c, st, "sanp")

def C22(c):
    rng = c.rng
    model(c)
    st = []
    tiny = 5e-324
    for s in (1.0, 0.0, -0.0, -tiny, -1.0, 1e-9, 1e9): st.append("p normal %s %s" % (hx(rng.choice([0.0, -3.0, 7.5])), hx(s)))
    for a, b in ((0.0, 1.0), (1.0, 1.0), (1.0, 0.0), (-2.0, -1.0), (-1.0, -2.0), (0.0, -0.0), (1.0, nextafter(1.0)), (nextafter(1.0), 1.0), (-5.0, 5.0)): st.append("p uniform %s %s" % (hx(a), hx(b)))
    for ty in ("exp", "poisson"):
        for a in (1.0, 0.0, -0.0, -tiny, -1.0, 1e-6, 50.0): st.append("p %s %s 0x0p+0" % (ty, hx(a)))
    for a, b in ((1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (0.0, 0.0), (-tiny, 2.0), (2.0, -tiny), (1e-3, 1e3)): st.append("p gamma %s %s" % (hx(a), hx(b)))
    st.append("p snd 0x0p+0 0x0p+0")
    cases = [("snd", 0.0, 1.0)]
    cases += [("normal", rng.choice([0.0, rng.uniform(-50, 50), 1e4]), rng.choice([1.0, 10 ** rng.uniform(-3, 3), 0.2])) for _ in range(c.scale(12, 60))]
    cases += [("uniform", a, a + w) for a, w in [(0.0, 1.0), (-1.0, 2.0), (2.0, 3.0), (-10.0, 5.0), (0.5, 0.25)] + [(rng.uniform(-100, 100), 10 ** rng.uniform(-2, 3)) for _ in range(c.scale(8, 40))]]
    cases += [("exp", rng.choice([1.0, 10 ** rng.uniform(-3, 3), 25.0, 0.2]), 0.0) for _ in range(c.scale(12, 60))]
    cases += [("gamma", float(rng.randint(1, 12)), rng.choice([1.0, 10 ** rng.uniform(-2, 2)])) for _ in range(c.scale(10, 50))]
    cases += [("gamma", rng.choice([0.05, 0.5, rng.uniform(0.02, 1), rng.uniform(1, 30)]), 10 ** rng.uniform(-2, 2)) for _ in range(c.scale(10, 50))]
    cases += [("gamma", 10 ** rng.uniform(-2.5, -1.5), 10 ** rng.uniform(-2, 2)) for _ in range(c.scale(4, 20))]
    cases += [("poisson", rng.choice([0.01, 0.5, 1.0, 3.0, rng.uniform(0.005, 40), 11.9, 12.1, 35.0]), 0.0) for _ in range(c.scale(14, 60))]
    cases += [("poisson", rng.uniform(100, 2000), 0.0)]
    for ty, a, b in cases:
        m, v = {"snd": (0, 1), "normal": (a, b * b), "uniform": ((a + b) / 2, (b - a) ** 2 / 12), "exp": (1 / (a or 1), 1 / (a or 1) ** 2), "gamma": (a / b if b else 0, a / b / b if b else 0), "poisson": (a, a)}[ty]
        sd = math.sqrt(v)
        xs = [m + sd * t for t in (-2, -1.5, -1, -0.6, -0.3, 0, 0.3, 0.7, 1, 1.5, 2.5)]
        if ty == "poisson": xs = sorted({float(max(0, math.floor(x))) for x in xs} | {0.0, 1.0})
        st.append("s %s %s %s %s %d %d %d %s" % (ty, hx(a), hx(b), hx(float(m)), c.scale(400000 if ty == "gamma" and a < .03 else 60000, 1000000), rng.randint(0, 2 ** 32 - 2), len(xs), " ".join(hx(x) for x in xs)))
    judge(c, st, "sanp" if not c.thorough else "opt")
