import json, math, re
import vf
from vf import hx, nextafter

DIRS = ["market_data", "payoff", "option", "model", "random", "numerical_analysis", "solver/monte_carlo"]
LAWS = """SPECIFICATION Spec
CONSTANTS
 Px = {%s}
 Steps = %d
 Ks = {%s}
 Rs = {%s}
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
def laws(c, invs):
    big = c.thorough
    c.model("MonteCarloMC", LAWS % ("1, 2, 3, 5, 8" if big else "1, 2, 3, 5", 2, '1, 2, 3, "7/2"' if big else "1, 2, 3", '"0", "1/20", "-1/50"', invs))
    if big: c.model("MonteCarloMC", LAWS % ("1, 2, 4", 3, "1, 2, 3", '"0", "1/20"', invs), name="MonteCarloMC_3")

TOL = 'CONSTANT Tol = "%s"\n'
def run(c, st, tol="1e-9", name=None):
    exe = vf.build("drv_mc", DIRS)
    st = [{"id": "%s%d" % (name or "c", i), "line": l} for i, l in enumerate(st)]
    c.conform("MonteCarloTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace", extra_cfg=TOL % tol, name=name)

# ------------------------------------------------------------------ stimuli
@vf.nudged(0.15, keep=lambda x: True)
def rate(rng): return rng.choice([0.0, 0.05, 0.02, rng.uniform(-0.05, 0.2), 0.1, rng.uniform(0, 1), -0.01, rng.choice([-0.1, -0.3, 1.5, 3.0, 1e-6])])
def mat(rng): return rng.choice([1.0, 0.5, 0.25, 2.0, rng.uniform(0.01, 5), 10.0, 1 / 365, 0.0, 30.0, rng.choice([50.0, 100.0, 1e-6])])
def levels(rng):
    """A strike, a second strike, a barrier and the prices worth visiting around them."""
    s = rng.choice([1.0, 1.0, 1.0, 1e-4, 1e6, rng.uniform(0.01, 50)])
    K = rng.choice([100.0, rng.uniform(60, 140), float(rng.randint(80, 120)), 0.0]) * s
    K2 = rng.choice([K, K + rng.uniform(0, 30) * s, K + 10 * s])
    B = rng.choice([K, K * 1.1, K * 0.9, rng.uniform(50, 150) * s, 110.0 * s, 90 * s])
    return s, K, K2, B
def price(rng, s, marks):
    x = rng.choice([lambda: rng.uniform(50, 160) * s, lambda: rng.uniform(50, 160) * s, lambda: rng.choice(marks), lambda: nextafter(rng.choice(marks)), lambda: nextafter(rng.choice(marks), False),
                    lambda: rng.choice([80, 90, 100, 110, 120]) * s, lambda: 100 * s * math.exp(rng.gauss(0, 1))])()
    return x if x > 0 else 100.0 * s
def path(rng, steps, s, marks):
    k = rng.random()
    if k < 0.25:
        p = [rng.uniform(60, 140) * s]
        for _ in range(steps - 1): p.append(p[-1] * math.exp(rng.gauss(0, 0.1)))
    elif k < 0.35: p = sorted(price(rng, s, marks) for _ in range(steps))
    elif k < 0.45: p = sorted((price(rng, s, marks) for _ in range(steps)), reverse=True)
    elif k < 0.5: p = [price(rng, s, marks)] * steps
    else: p = [price(rng, s, marks) for _ in range(steps)]
    return p
def table(rng, n, steps, s, marks, sure=()):
    ps = [path(rng, steps, s, marks) for _ in range(n)]
    # paths that touch a level in exactly one place (first, last, middle)
    for p in ps:
        if rng.random() < 0.3:
            m = rng.choice(marks)
            if m <= 0: continue
            up = rng.random() < 0.5
            q = [m * (rng.uniform(0.7, 0.999) if up else rng.uniform(1.001, 1.4)) for _ in p]
            i = rng.choice([0, len(p) - 1, rng.randrange(len(p))])
            q[i] = rng.choice([m, nextafter(m), nextafter(m, False), m * (1.1 if up else 0.9)])
            p[:] = q
    # levels certainly touched from one side at the first, the last, the second or the last but one date only
    for p, (m, up, i) in zip(ps, [(m, up, i) for m in sure for up in (True, False) for i in (0, steps - 1, steps // 2, min(1, steps - 1), max(0, steps - 2))]):
        p[:] = [m * (rng.uniform(0.8, 0.99) if up else rng.uniform(1.01, 1.2)) for _ in p]
        p[i] = rng.choice([m, nextafter(m, up), m * (1.1 if up else 0.9)])
    return ps
def model(m, ps, bare=False): return ("bare" if bare else "model") + " %d %d %d %s" % (m, len(ps[0]), len(ps), " ".join(hx(x) for p in ps for x in p))
def opt(i, f, cp, t, T, k1, k2=0.0, B=0.0, d="up"): return "opt %d %s %s %s %s %s %s %s %s" % (i, f, cp, t, hx(T), hx(k1), hx(k2), hx(B), d)
def npaths(rng, n, big): return rng.choice([20011, 70000, 100001] if big else [1, 2, n, n, n, 2 * n + 1, rng.randint(1, 60), rng.choice([100, 257, 1000, 5003])])
KIND = lambda f: "single" if f in ("european", "digital", "ddigital") else f

def plain(c, fams, count, many_steps=False):
    """Every family on one table of paths, priced repeatedly with rate changes, other N and other entry points in between."""
    rng, st = c.rng, []
    for it in range(count):
        s, K, K2, B = levels(rng)
        marks = [x for x in (K, K2, B) if x > 0] or [s]
        big = it % 40 == 7
        steps = rng.choice([1, 2, 3, 4, 6, 12])
        n = rng.choice([1, 2, 5, 10, 20])
        sure = ()
        if it % 25 == 3: steps, n = rng.choice([200, 300, 366, 400, 730]), 2
        if it % 20 == 5: steps, n, sure = rng.choice([24, 50, 64, 100, 130, 260]), 10, ((B,) if B > 0 else ())
        T, out = mat(rng), ["stock sing A %s %s none" % (hx(100 * s), hx(0.2)), "stock sing B %s %s %s" % (hx(70 * s), hx(0.1), hx(0.01))]
        mock = rng.random() < 0.3
        mk = "m1" if mock else "sing"
        if mock: out.append("stock m1 * %s %s none" % (hx(5.0), hx(0.3)))
        out += ["rate %s %s" % (mk, hx(rate(rng))), model(1, table(rng, n, steps, s, marks, sure))]
        i = 0
        for f in fams:
            for cp in ("call", "put"):
                for d in (("up", "down") if f.startswith("knock") else ("up",)):
                    i += 1
                    swap = rng.random() < 0.25                # neighbours in one process: same contract but for one term
                    out += [opt(i, f, cp, rng.choice("AB"), mat(rng) if rng.random() < 0.3 else T, K2 if swap else K, max(K, K2) if swap else K2, rng.choice([m for m in (B, B, K2) if m > 0 or m == B]) , d), "builder %d %s" % (i, KIND(f)), "setopt %d %d" % (i, i), "setmodel %d 1" % i]
                    if mock: out.append("setmarket %d m1" % i)
                    out.append("build %d %d" % (i, i))
        for k in rng.sample(range(1, i + 1), i):
            out.append("price %d %d calc" % (k, npaths(rng, n, big)))
            if rng.random() < 0.3: out.append("rate %s %s" % (mk, hx(rate(rng))))
            if rng.random() < 0.3:
                out += ["solver 1 %d" % npaths(rng, n, False), "setpricer 1 %d" % k, "solve 1"]
                if rng.random() < 0.5: out += ["setn 1 %d" % npaths(rng, n, False), "rate %s %s" % (mk, hx(rate(rng))), "solve 1"]
        st.append(" ".join(out))
    run(c, st)

def C09(c):
    laws(c, "ParityOK")
    plain(c, ["european", "digital", "ddigital"], c.scale(400, 5000))
def C10(c):
    laws(c, "GeoArith")
    plain(c, ["arith", "geom"], c.scale(300, 4000))
def C11(c):
    laws(c, "LookDom")
    plain(c, ["floatlb", "fixedlb", "european"], c.scale(400, 5000))
def C12(c):
    laws(c, "InOut")
    plain(c, ["knockin", "knockout", "european"], c.scale(400, 5000))

def grid(rng, n, steps, lo=1.0, hi=20.0):
    """Distinct multiples of 1/4 at every date: exact regressions stay well conditioned and backward look-ups unique."""
    cols = []
    for _ in range(steps):
        q = list(range(int(lo * 4), int(hi * 4)))
        cols.append([x / 4 for x in rng.sample(q, n)])
    return [[cols[j][i] for j in range(steps)] for i in range(n)]
def american_case(rng):
    out = ["stock sing A %s %s none" % (hx(100), hx(0.2)), "rate sing %s" % hx(rng.choice([0.0, 0.05, 0.3, rng.uniform(-0.05, 0.3), 1.0]))]
    n, steps = rng.choice([1, 2, 3, 5, 8, 8]), rng.choice([1, 2, 3, 4, 5])
    ps = grid(rng, n, steps)
    kind = rng.choice(["rand", "rand", "deep", "out", "mixed"])
    K = rng.choice([10.0, 10.5, rng.uniform(4, 16)])
    cp = rng.choice(["call", "put"])
    far = (2.0, K) if cp == "call" else (K + 0.5, 19.0)     # out of the money
    if kind == "out" and n <= 8:                            # in the money only at some dates
        o = grid(rng, n, steps, far[0], max(far[0] + 3, far[1]))
        live = set(rng.sample(range(steps), rng.randint(0, steps)))
        ps = [[ps[i][j] if j in live else o[i][j] for j in range(steps)] for i in range(n)]
        if rng.random() < 0.5 and steps > 1:
            for i in range(n): ps[i][-1] = ps[i][-1]
    if kind == "deep": K = 30.0 if cp == "put" else 0.5
    if kind == "mixed":
        i, j = rng.randrange(n), rng.randrange(steps)
        # exactly at the money, or in or out of it by next to nothing
        K = round(K * 4) / 4
        x = rng.choice([K, K, K * (1 + 1e-9), K * (1 - 1e-9), K * (1 + 1e-7), K * (1 - 1e-7), nextafter(K), nextafter(K, False)])
        if all(q[j] not in (K, x) for q in ps): ps[i][j] = x
    N = rng.choice([n, n, 2 * n, n + 1, 1]) if n <= 5 else n
    reg = rng.choice(["mean", "mean", "fixed", "tie", "ls 1", "ls 2", "ls 3", "none"])
    if reg == "tie":                                        # continuation values that equal exercise values exactly
        K = round(K * 4) / 4
        ex = [abs(x - K) for p in ps for x in p[:-1] if (x - K if cp == "call" else K - x) > 0 and x * 4 == int(x * 4)]
        reg = "fixed 1 %s" % hx(rng.choice(ex) if ex else 1.0)
    elif reg == "fixed":
        cs = [rng.choice([0.0, rng.uniform(-5, 8)]), rng.choice([0.0, rng.uniform(-1, 1)]), rng.choice([0.0, rng.uniform(-0.1, 0.1)])][:rng.randint(1, 3)]
        reg = "fixed %d %s" % (len(cs), " ".join(hx(x) for x in cs))
    T = rng.choice([1.0, 0.5, 2.0, rng.uniform(0.1, 4)])
    bare = rng.random() < 0.2                               # a model on a pseudo-random generator that cannot go backwards
    out += [model(1, ps, bare), opt(1, "american", cp, "A", T, K), "builder 1 american", "setopt 1 1", "setmodel 1 1"]
    if reg != "none": out.append("setreg 1 " + reg)
    out += ["build 1 1"]
    for how in (["calc", "std", "calc"] if bare else rng.sample(["calc", "std", "bridge", "bridge"], 3)):
        out.append("price 1 %d %s" % (N, how))
        if rng.random() < 0.3: out.append("rate sing %s" % hx(rng.choice([0.0, 0.05, 0.2])))
    return " ".join(out)
def american_wide(rng, long=False):
    """Many paths, many dates, cheap regressions."""
    n, steps = (rng.choice([20, 60]), rng.choice([10, 25])) if not long else (rng.choice([2, 4, 7]), rng.choice([100, 252, 365])) if long != "many" else (rng.choice([300, 700, 1100]), rng.choice([2, 3]))
    ps = [[100.0] * steps for _ in range(n)]
    for p in ps:
        x = 100.0
        for j in range(steps): x *= math.exp(rng.gauss(0, 0.06)); p[j] = x
    reg = rng.choice(["mean", "fixed 2 %s %s" % (hx(rng.uniform(-10, 30)), hx(rng.uniform(-0.2, 0.2)))])
    K = rng.choice([90.0, 100.0, 110.0, 60.0, 140.0])
    return " ".join(["stock sing A %s %s none" % (hx(100), hx(0.2)), "rate sing %s" % hx(rate(rng)), model(1, ps), opt(1, "american", rng.choice(["call", "put"]), "A", 1.0, K), "builder 1 american",
                     "setopt 1 1 setmodel 1 1 setreg 1", reg, "build 1 1", "price 1 %d std price 1 %d bridge price 1 %d calc" % (n, n, n + 3)])
def calm_american(rng):
    """The default model without volatility: GBM on a pseudo-random generator, priced through the public entry point."""
    S = rng.choice([100.0, rng.uniform(20, 200)]); K = S * rng.choice([1.3, 1.05, 0.9, 0.8, 1.01, 0.98])
    r = rng.choice([0.05, 0.1, 0.3, 0.02]); y = rng.choice(["none", hx(0.0), hx(0.5 * r), hx(2 * r)])
    cp = rng.choice(["call", "put"])
    return " ".join(["stock sing A %s %s %s" % (hx(S), hx(0.0), y), "rate sing %s" % hx(r), opt(1, "american", cp, "A", rng.choice([1.0, 2.0]), K), "builder 1 american", "setopt 1 1",
                     rng.choice(["", "setreg 1 mean", "setreg 1 ls 1"]), "build 1 1", "price 1 %d calc" % rng.choice([1, 2, 3])])

def C13(c):
    laws(c, "AmerLaw")
    run(c, [american_case(c.rng) for _ in range(c.scale(1100, 12000))] + [american_wide(c.rng) for _ in range(c.scale(40, 400))] + [american_wide(c.rng, True) for _ in range(c.scale(8, 80))] + [american_wide(c.rng, "many") for _ in range(c.scale(4, 30))])
    run(c, [calm_american(c.rng) for _ in range(c.scale(24, 150))], "1e-7", name="calm")

# ------------------------------------------------------------------ builders and solver
HIST = """SPECIFICATION Spec
CONSTANTS
 Kinds = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS PricerAsLastSet NoOptionNoPricer SolverAsLastSet OneOwner Complete
CHECK_DEADLOCK FALSE
"""
KINDS = ["single", "american", "arith", "geom", "knockin", "knockout", "floatlb", "fixedlb"]
FAMS = ["european", "digital", "ddigital", "american", "arith", "geom", "knockin", "knockout", "floatlb", "fixedlb"]
def histories(c, n, ops):
    t = vf.tlc("MonteCarloHist", HIST % (", ".join('"%s"' % k for k in KINDS), ops, "TRUE"), c.work, name="MonteCarloGen", workers=1,
               args=["-simulate", "num=%d" % n, "-depth", str(ops + 2), "-seed", str(c.seed + 17)], timeout=300)
    hs, seen = [], set()
    for l in t.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', l)
        if m and m.group(1) not in seen: seen.add(m.group(1)); hs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if len(hs) < n // 10: raise vf.CheckError("TLC generated only %d histories: %s" % (len(hs), t.out[-1500:]))
    c.rng.shuffle(hs)
    return hs[:n]

def calm_level(rng, S, g, T):
    """Barriers just beside the first, the last or a middle monitoring price of the calm path."""
    j = rng.choice([1, 2, 26, 51, 52])
    return S * math.exp(g * T * j / 52) * rng.choice([1 + 1e-6, 1 - 1e-6, 1.001, 0.999])
def replay(rng, kind, ops):
    rs = {"sing": rng.choice([0.05, 0.1, 0.3]), "m1": rng.choice([0.02, 0.2])}
    q = {"A": (100.0, "none"), "B": (rng.choice([50.0, 130.0]), hx(0.02)), "*": (rng.choice([80.0, 120.0]), "none")}
    out = ["stock sing A %s %s none" % (hx(q["A"][0]), hx(0.0)), "stock sing B %s %s %s" % (hx(q["B"][0]), hx(0.0), q["B"][1]), "stock m1 * %s %s none" % (hx(q["*"][0]), hx(0.0)),
           "rate sing %s" % hx(rs["sing"]), "rate m1 %s" % hx(rs["m1"])]
    for i, t in ((1, "A"), (2, "B"), (3, "A")):
        f = kind if kind != "single" else rng.choice(["european", "digital", "ddigital"])
        if i == 3: f = rng.choice([x for x in FAMS if KIND(x) != kind])
        T = rng.choice([1.0, 0.5, 2.0]); S = q[t][0]
        cp = rng.choice(["call", "put"])
        K = S * rng.choice([0.7, 0.9, 1.2, 1.5])
        out.append(opt(i, f, cp, t, T, K, K * rng.choice([1.0, 1.5]), calm_level(rng, S, rs["sing"] - (0 if t == "A" else 0.02), T), rng.choice(["up", "down"])))
    for m in (1, 2): out.append(model(m, grid(rng, rng.randint(1, 4), rng.choice([1, 2, 3]), 60, 140)))
    out += ["builder 1 %s" % kind, "solver 1 1", "solver 2 1"]
    NS = {1: rng.choice([1, 2]), 2: 3}
    regs = {"r1": "mean", "r2": "fixed 1 " + hx(rng.uniform(0, 30))}
    for e in ops:
        o = e["op"]
        if o == "setopt": out.append("setopt 1 %d" % e["i"])
        elif o == "setmodel": out.append("setmodel 1 %d" % e["m"])
        elif o == "setmarket": out.append("setmarket 1 %s" % e["mk"])
        elif o == "setreg": out.append("setreg 1 %s" % regs[e["g"]])
        elif o == "build": out.append("build 1 %d" % e["p"])
        elif o == "setpricer": out.append("setpricer %d %d" % (e["s"], e["p"]))
        elif o == "setn": out.append("setn %d %d" % (e["s"], NS[e["n"]]))
        elif o == "solve": out.append("solve %d" % e["s"])
        elif o == "rate": out.append("rate %s %s" % (e["mk"], hx(rng.choice([0.05, 0.1, 0.02, 0.3]))))
        elif o == "spot":
            t = rng.choice("AB"); out.append("stock sing %s %s %s %s" % (t, hx(rng.uniform(40, 160)), hx(0.0), q[t][1]))
    return out
def tail(rng, kind):
    """Ends every history with builds from what is set, so that nothing set goes unobserved."""
    out = []
    for p in (91, 92):
        out += ["build 1 %d" % p, "price %d %d calc" % (p, rng.choice([1, 2, 3])), "setopt 1 %d" % rng.choice([1, 2]), "build 1 %d" % (p + 4), "price %d 1 calc" % (p + 4)]
    return out

def C14(c):
    rng = c.rng
    c.model("MonteCarloHist", HIST % ('"single", "american"', c.scale(4, 5), "FALSE"))
    st = []
    for h in histories(c, c.scale(700, 6000), 14):
        ops = h["ops"]
        st.append(" ".join(replay(rng, h["kind"], ops) + tail(rng, h["kind"])))
    # systematic: every builder reused for another option, market and model, with every wrong option
    for kind in KINDS:
        for rep in range(c.scale(4, 30)):
            ops = [{"op": "build", "p": 1}, {"op": "setopt", "i": 0}, {"op": "build", "p": 2}, {"op": "setopt", "i": 3}, {"op": "build", "p": 3}, {"op": "solve", "s": 1}]
            seq = [{"op": "setopt", "i": 1}, {"op": "setopt", "i": 2}, {"op": "setmodel", "m": 0}, {"op": "setmodel", "m": 1}, {"op": "setmodel", "m": 2}, {"op": "setmarket", "mk": "m1"}, {"op": "setmarket", "mk": "sing"}, {"op": "spot"}]
            p = 3
            for _ in range(6):
                ops += rng.sample(seq, rng.randint(1, 3)); p += 1
                ops += [{"op": "build", "p": p}, {"op": "setpricer", "s": rng.choice([1, 2]), "p": p}, {"op": "setn", "s": 1, "n": rng.choice([1, 2])}, {"op": "solve", "s": 1}, {"op": "solve", "s": 2}]
            st.append(" ".join(replay(rng, kind, ops) + tail(rng, kind)))
        bad = ["stock sing A %s %s none" % (hx(100), hx(0.0)), "builder 1 %s" % kind, "build 1 1"]
        for i, f in enumerate(FAMS): bad += [opt(i + 1, f, "call", "A", 1.0, 90.0, 120.0, 80.0), "setopt 1 %d" % (i + 1), "build 1 %d" % (i + 2), "price %d 1 calc" % (i + 2)]
        st.append(" ".join(bad))
    run(c, st, "1e-7")
