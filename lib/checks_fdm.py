import json, math, re
import vf
from vf import hx, nextafter
DIRS = ["market_data", "option", "payoff", "numerical_analysis", "solver/finite_difference_method"]

def vals(xs): return "%d %s" % (len(xs), " ".join(hx(float(x)) for x in xs))
class Prob:
    """A random well-posed problem."""
    def __init__(s, rng, scheme=None, big=False):
        u = rng.uniform
        s.scheme = scheme or rng.choice(["explicit", "implicit", "cn"])
        s.J = rng.choice([3, 4, 5, 6, 7, 9, 12]) if not big else rng.choice([15, 20, 30])
        s.N = rng.choice([2, 3, 4, 5, 6, 7, 8, 11, 12]) if not big else rng.choice([13, 21, 26])
        if big == "wide": s.J, s.N = rng.choice([100, 150, 201, 257, 300]), rng.choice([2, 3, 5])
        if big == "long": s.J, s.N = rng.choice([4, 5, 7]), rng.choice([120, 253, 366])
        s.xDom = rng.choice([1.0, 3.0, u(0.5, 20), 100.0]); s.tDom = rng.choice([1.0, 0.5, u(0.05, 3), 2.0, rng.choice([5.0, 10.0, 30.0, 0.01])])
        x, t = s.xDom, s.tDom
        h = x / (s.J - 1); dt = t / (s.N - 1)
        d = rng.choice([0.1, 0.4, u(0.05, 1.5), u(0.02, 0.2)]) * h * h / dt if s.scheme == "explicit" else rng.choice([0.2, 1.0, u(0.05, 5)]) * h * h / dt
        tv = rng.random() < 0.75                       # time-dependent coefficients
        s.D = [d, d * u(0, 1) / t if tv else 0.0, d * u(-0.4, 1) / x, d * u(-0.2, 1) / (x * t) if tv else 0.0]
        cv = d / h * u(-1, 1) * (2.8 if s.N <= 30 and rng.random() < 0.25 else 1)      # (beyond 2: one-sided weights turn negative)
        s.C = [cv, cv * u(-1, 1) / t if tv else 0.0, cv * u(-1, 1) / x, cv * u(-1, 1) / (x * t) if tv else 0.0]
        rv = -rng.choice([0.0, 0.05, u(0, 1)]) / t
        s.R = [rv, rv * u(0, 1) / t if tv else 0.0, rv * u(0, 1) / x, 0.0]
        f = rng.choice([0.0, u(-3, 3), u(-3, 3)]) / t
        s.f = [f, f * u(-1, 1) / t, f * u(-1, 1) / x, f * u(-1, 1) / (x * t), f * u(-2, 2) / (t * t)]
        a = lambda: rng.choice([0.0, 1.0, u(-5, 5)])
        s.bl = [a(), a() / t, a() / t / t, 0.0]; s.br = [a(), a() / t, a() / t / t, a() / x]
        s.ic = [a(), a() / x, a() / x / x, rng.choice([0.0, 1.0, u(-2, 2)]) / x, x * u(0, 1)]
        s.ms = rng.choice(["none", "lu", "plu", "thomas", "user"] if s.J > 3 else ["none", "lu", "plu", "user"])     # (Thomas needs two unknowns)
    def line(s):
        return "%s %s %s %d %s %d %s" % (s.scheme, s.ms, hx(s.xDom), s.J, hx(s.tDom), s.N, " ".join(vals(v) for v in (s.D, s.C, s.R, s.f, s.bl, s.br, s.ic)))
    def sane(s):
        """Diagonal dominance with margin everywhere, so that every correct solver is accurate; an explicit march must not amplify rounding errors much."""
        h = s.xDom / (s.J - 1); dt = s.tDom / (s.N - 1); amp = 1.0
        for n in range(s.N):
            for j in range(1, s.J - 1):
                t, x = n * dt, j * h
                A = lambda a: a[0] + a[1] * t + x * (a[2] + a[3] * t)
                if A(s.D) <= 0 or A(s.R) > 0: return False
                if abs(A(s.C)) * h / 2 > 1.5 * A(s.D): return False
                a, b = A(s.D) * dt / h / h, A(s.C) * dt / 2 / h
                amp = max(amp, abs(a - b) + abs(1 - 2 * a + dt * A(s.R)) + abs(a + b))
        if s.scheme == "explicit" and (s.N - 1) * math.log(amp) > math.log(1e5): return False
        return True
def problem(rng, **kw):
    while True:
        p = Prob(rng, **kw)
        if p.sane(): return p

MC = """SPECIFICATION Spec
CONSTANTS
 Js = {%s}
 Ns = {%s}
INVARIANTS Residual0 Ends Affine Nodes
CHECK_DEADLOCK FALSE
"""
def C23(c):
    rng = c.rng
    c.model("FDMMC", MC % (("4, 5", "2, 3") if not c.thorough else ("4, 5, 7", "2, 3, 5")))
    st = []
    for s in ("explicit", "implicit", "cn"):
        for _ in range(c.scale(170, 1500)): st.append("grid " + problem(rng, scheme=s).line())
        for _ in range(c.scale(12, 150)): st.append("grid " + problem(rng, scheme=s, big=True).line())
        for b in ("wide", "long"):
            for _ in range(c.scale(4, 40)): st.append("grid " + problem(rng, scheme=s, big=b).line())
        # every number of steps: the horizon is met by exactly N-1 of them
        for N in range(2, c.scale(40, 150)):
            p = problem(rng, scheme=s); d = p.tDom; p.N = N; p.J = 4; p.ms = rng.choice(["none", "thomas"]); p.tDom = rng.choice([1.0, d, 0.7, 0.1, 3.0])
            k = (p.N - 1) * d / 100 / max(p.tDom, 1e-9)
            # one modest, purely time-dependent problem per N
            p.D = [0.01 * p.xDom ** 2 / p.tDom, 0.0, 0.0, 0.0]; p.C = [0.0] * 4; p.R = [-0.1 / p.tDom, 0, 0, 0]; p.f = [1.0 / p.tDom, 1 / p.tDom ** 2, 0, 0]
            st.append("grid " + p.line())
    exe = vf.build("drv_fdm", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("FDMTrace", lambda s, o: {"id": s["id"], "p": o["p"], "o": o["o"]}, exe, st, kind="trace", extra_cfg='CONSTANT Tol = "1e-9"\n')

def cp(rng): return rng.choice(["call", "put"])
def coup(rng): return rng.choice(["none", hx(0.0), hx(0.03), hx(rng.uniform(0, 0.2))])
def away(rng):
    """Sometimes a market source of the user's own; the shared one then holds something else."""
    return "" if rng.random() < .75 else "own %s %s %s " % (hx(rng.uniform(20, 200)), hx(rng.uniform(.05, .9)), hx(rng.uniform(-.05, .3)))
def C24(c):
    rng = c.rng
    c.model("FDMMC", MC % ("4", "2"))
    st = []
    for _ in range(c.scale(500, 6000)):
        out = [away(rng) + "coef %s %s %s %s" % (hx(100.0), hx(rng.choice([0.2, 0.0, rng.random()])), coup(rng), hx(rng.choice([0.05, 0.0, rng.uniform(-0.1, 0.3)])))]
        qs = []
        for _ in range(rng.choice([1, 1, 2, 3])):                     # several options in one process, alike or not
            K, T, w, tk = rng.choice([100.0, 10 ** rng.uniform(-2, 4)]), rng.choice([1.0, rng.uniform(0.05, 5)]), cp(rng), rng.choice("AAB")
            if qs and rng.random() < .7: q = list(qs[0]); i = rng.randrange(4); q[i] = (K, T, w, tk)[i]; K, T, w, tk = q
            qs.append((K, T, w, tk)); out.append("pde %s %s %s %s" % (w, hx(K), hx(T), tk))
        for _ in range(rng.randint(2, 7) * len(qs)):
            if rng.random() < 0.6 / len(qs):
                out.append(rng.choice([lambda: "sig " + hx(rng.random()), lambda: "c " + hx(rng.random() * 0.3), lambda: "r " + hx(rng.uniform(-0.1, 0.3)), lambda: "B " + hx(rng.random()), lambda: "else " + hx(rng.random()),
                                       lambda: "reg %s %s %s" % (hx(rng.uniform(1, 200)), hx(rng.random()), coup(rng))])())
            i = rng.randrange(len(qs)); K, T = qs[i][:2]
            x = K * rng.choice([0.0, 1.0, rng.uniform(0, 5), 3.0]); out.append("at %d %s %s" % (i, hx(rng.choice([0.0, T, rng.random() * T, T / 2])), hx(x)))
        st.append(" ".join(out))
    kx, kt = BS_K
    for _ in range(c.scale(160, 1500)):
        K = rng.choice([100.0, 10 ** rng.uniform(-1, 3)]); T = rng.choice([1.0, rng.uniform(0.2, 3)]); sig = rng.uniform(0.15, 0.5)
        v = sig * math.sqrt(T); S = K * math.exp(rng.uniform(-1.2, 1.2) * v); r = rng.choice([0.0, 0.05, rng.uniform(-0.03, 0.12)]); q = coup(rng)
        xDom = K * math.exp(rng.uniform(4.5, 6) * v) if v < 0.35 else K * math.exp(4.5 * v)
        scheme = rng.choice(["explicit", "implicit", "cn", "cn"])
        J = max(int(xDom / (K * v) * rng.uniform(10, 14)), 40)
        if scheme == "explicit":
            if J > 220: scheme = "cn"
            else: N = int(sig * sig * J * J * T * 1.05) + 3
        if scheme != "explicit": N = rng.choice([40, 80, 61, 101])
        if J > c.scale(400, 700): continue
        st.append(away(rng) + "price %s %s %s %s %s %s %s %s %s %s %s %d %d %s %s" % (scheme, rng.choice(["none", "lu", "thomas"]), rng.choice(["none", "linear", "quadratic"]), cp(rng), hx(K), hx(T), hx(S), hx(sig), q, hx(r), hx(xDom), J, N, kx, kt if scheme != "cn" else BS_KCN))
    exe = vf.build("drv_fdm", DIRS, variant="opt")
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("FDMBS", lambda s, o: dict(o["c"], id=s["id"]), exe, st, case_timeout=60)
BS_K = ("1/10", "1/4")
BS_KCN = "1/20"

HIST = """SPECIFICATION Spec
CONSTANTS
 Solvers = {%s}
 Hows = {%s}
 Places = {%s}
 Spots = {%s}
 Asks = %d
 MaxOps = %d
 Emit = %s
INVARIANTS Follows Once Complete
CHECK_DEADLOCK FALSE
"""
def C25(c):
    rng = c.rng
    c.model("FDMMC", MC % ("4", "2"))
    c.model("FDMHist", HIST % ('"s1"', '"none", "quadratic"', '"sA", "oA"', "1, 2", 1, c.scale(5, 7), "FALSE"))
    n, ops = c.scale(250, 3000), 14
    hs = []
    for places, spots, m in (('"sA"', "1, 2, 3, 4, 5, 6", n // 2), ('"sA", "oA"', "2, 3, 5, 6", n // 4), ('"sA", "sB", "oA", "oB"', "2, 3, 6", n - n // 2 - n // 4)):
        t = vf.tlc("FDMHist", HIST % ('"s1", "s2"', '"none", "linear", "quadratic", "custom"', places, spots, 4, ops, "TRUE"), c.work, name="FDMGen%d" % len(places), workers=1,
                   args=["-simulate", "num=%d" % m, "-depth", str(ops + 2), "-seed", str(c.seed + 9)], timeout=300)
        seen, got = set(), []
        for l in t.prints:
            q = re.match(r'<<"HIST", "(.*)">>$', l)
            if q and q.group(1) not in seen: seen.add(q.group(1)); got.append(json.loads(q.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if len(got) < m // 10: raise vf.CheckError("TLC generated only %d histories: %s" % (len(got), t.out[-1500:]))
        hs += got[:m]
    rng.shuffle(hs)
    st = []
    for h in hs[:n]:
        bs = rng.random() < 0.3; out = []; x = None
        for e in h:
            o = e["op"]
            if o == "new":
                if bs:
                    K = 100.0; x = x or 250.0
                    J = rng.choice([11, 26, 51]); sc = rng.choice(["explicit", "implicit", "cn"]); N = rng.choice([5, 13, 21]) if sc != "explicit" else int(0.2 * 0.2 * J * J) + 12
                    out.append("new %s %s %s bs %s none %s %d %s %d %s %s" % (e["s"], e["how"], e["at"], sc, hx(x), J, hx(1.0), N, cp(rng), hx(K)))
                else:
                    p = problem(rng, big=rng.choice([False] * 12 + ["wide", "long"]))
                    if p.J < 100 and p.N < 100 and rng.random() < 0.4: p.N = rng.choice([11, 21, 7, 50]); p.D = [0.01 * p.xDom ** 2 / p.tDom / (5 if p.N < 20 else 1), 0, 0, 0]; p.C = [0.0] * 4; p.tDom = rng.choice([1.0, p.tDom])
                    x = x or p.xDom
                    out.append("new %s %s %s user %s" % (e["s"], e["how"], e["at"], p.line()))
            elif o == "solve": out.append("solve " + e["s"])
            elif o == "price": out += ["price " + e["s"]] * (e["times"] if rng.random() < .2 else 1)
            elif o == "spot":
                y = x or 10.0
                v = {1: y / 2, 2: rng.uniform(0, 1) * y + 1e-6, 3: y * rng.uniform(1, 3), 4: y, 5: y * rng.choice([1e-9, 0.02, 0.98]), 6: rng.choice([0.0, -1.0, y * rng.random() + 1e-3])}[e["v"]]
                out.append("spot %s %s %s" % (e["at"], hx(v), "set" if bs or rng.random() < 0.7 else "reg"))
            elif o == "other":
                w = rng.choice(["sig", "c", "r", "C", "bad"]) if not bs else rng.choice(["C", "bad"])
                out.append("other %s %s %s" % (e["at"], w, hx(rng.uniform(0.01, 0.4))))
        out += ["price " + s for s in sorted({e["s"] for e in h if e["op"] == "new"}, key=lambda s: rng.random())]
        st.append("use " + " ".join(out))
    exe = vf.build("drv_fdm", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("FDMUse", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace")
