import copy, json, math, re
import vf
from vf import hx, nextafter

DIRS = ["market_data", "model", "random"]
GRID = {  # parameter sets of the martingale law: p1, p2, p3, lam
 "gbm": ('"0"', '"0"', '"0"', '"1"'),
 "merton": ('"-1/10", "1/5"', '"1/10", "2/5"', '"0"', '"1/2", "3"'),
 "kou": ('"3", "10"', '"2", "5"', '"0", "3/10", "1"', '"1/2", "3"'),
 "vg": ('"1/10", "1/2"', '"-1/5", "1/10"', '"0"', '"1"'),
 "heston": ('"0", "1/2"', '"-1", "3/10"', '"0", "1/25"', '"1"'),
 "bates": ('"-1/10", "1/5"', '"1/10"', '"1/100", "1/4"', '"1/2", "3"')}
def law(c, kinds):
    for k in kinds:
        g = GRID[k]
        c.model("ModelsMC", """SPECIFICATION Spec
CONSTANTS
 Kind = "%s"
 Dts = {%s}
 Sigs = {%s}
 Rs = {"0", "1/20", "-1/50"}
 Cs = {"none", "3/100"}
 Lams = {%s}
 Ps1 = {%s}
 Ps2 = {%s}
 Ps3 = {%s}
INVARIANTS Martingale Homog LawsTotal
CHECK_DEADLOCK FALSE
""" % (k, '"1/252", "1/12", "1"' if c.thorough else '"1/12", "1"', '"0", "1/5", "1/2"' if c.thorough else '"1/5"', g[3], g[0], g[1], g[2]), name="ModelsMC_" + k)

def elsewhere(rng, line):
    """The same case in a market source of the user's own, with decoys under the same names in the shared one."""
    def decoy(): return "use sing reg %s %s %s %s rate %s use own" % (rng.choice("AAB"), hx(spot(rng)), hx(gentle(rng)), coup(rng), hx(rt(rng)))
    parts = re.split(r" (?=(?:sim|back|upd|rate|reg|model) )", line)
    out = ["use sing reg A %s %s none reg B %s %s none use own" % (hx(spot(rng)), hx(gentle(rng)), hx(spot(rng)), hx(gentle(rng)))]
    for p in parts:
        if rng.random() < .3: out.append(decoy())
        out.append(p)
    return " ".join(out)
def run(c, st, tol="1e-9", name=None):
    st = [elsewhere(c.rng, l) if c.rng.random() < .25 and not l.startswith("use ") else l for l in st]
    exe = vf.build("drv_model", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("ModelsTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace", extra_cfg='CONSTANT Tol = "%s"\n' % tol, name=name)

# ------------------------------------------------------------------ stimuli
@vf.nudged(0.15, near=-6, keep=lambda x: x > 0)
def spot(rng): return rng.choice([100.0, rng.uniform(1, 300), 10 ** rng.uniform(-3, 5)])
@vf.nudged(0.15, near=-6, keep=lambda x: x >= 0)
def vol(rng): return rng.choice([0.2, 0.0, rng.uniform(0.01, 0.8), 0.3, rng.choice([1.0, 2.5, 4.0, rng.uniform(1, 6), 1e-4])])
def coup(rng): return rng.choice(["none", "none", hx(0.0), hx(0.03), hx(rng.uniform(0, 0.3)), hx(1.0)])
@vf.nudged(0.15, near=-6, keep=lambda x: True)
def rt(rng): return rng.choice([0.0, 0.05, rng.uniform(-0.05, 0.2), -0.01, rng.choice([-0.2, 0.5, 1.5])])
@vf.nudged(0.15, near=-6, keep=lambda x: x > 0)
def mat(rng): return rng.choice([1.0, 0.5, 2.0, rng.uniform(0.01, 4), 0.25, rng.choice([10.0, 20.0, 30.0, 1e-3])])
def z(rng): return rng.choice([rng.gauss(0, 1), rng.gauss(0, 1), 0.0, rng.uniform(-4, 4), 1.0, -1.0, rng.choice([-5.5, 5.5, rng.uniform(-8, 8)])])
def vals(xs): return "%d %s" % (len(xs), " ".join(hx(x) for x in xs))

@vf.nudged(0.2, near=-6, keep=lambda x: 0 <= x <= 0.4)
def gentle(rng): return rng.uniform(0, 0.4)

class Mod:
    """Parameters of one model and the laws it draws from."""
    def __init__(s, rng, kind):
        s.kind = kind
        u = rng.uniform
        s.lam, s.muJ, s.sJ = rng.choice([0.5, 3.0, u(0.05, 10)]), rng.choice([-0.1, 0.15, u(-0.5, 0.3)]), rng.choice([0.1, u(0.02, 0.6)])
        s.p, s.e1, s.e2 = rng.choice([0.3, 0.5, u(0.01, 0.99), 0.0, 1.0]), rng.choice([10.0, u(1.5, 40), u(1.5, 3)]), rng.choice([5.0, u(0.2, 40)])
        s.nu, s.th = rng.choice([0.2, u(0.01, 1.5)]), rng.choice([-0.14, u(-0.4, 0.2), 0.0])
        s.kap, s.hth, s.sv, s.rho, s.v0 = rng.choice([2.0, u(0.1, 6)]), rng.choice([0.04, u(0.0, 0.3)]), rng.choice([0.3, u(0.05, 1.5)]), rng.choice([-0.7, 0.0, 0.5, -1.0, 1.0, u(-0.95, 0.95)]), rng.choice([0.04, u(0.001, 0.3)])
        if kind == "heston" and rng.random() < 0.2: s.v0 = 0.0
        if kind == "heston" and rng.random() < 0.2: s.sv = 0.0
        if kind == "heston" and rng.random() < 0.1: s.kap = 0.0
        if rng.random() < 0.15:                            # far out, still within the domain
            s.lam, s.muJ, s.sJ = rng.choice([20.0, 1e-3, u(5, 40)]), rng.choice([-2.0, 0.8, u(-3, 1)]), rng.choice([1.2, 1e-3, u(0.5, 1.5)])
            s.p, s.e1, s.e2 = rng.choice([0.999, 0.001, 0.97]), rng.choice([1.05, 300.0]), rng.choice([0.05, 500.0])
            s.nu, s.th = rng.choice([1e-3, 0.01, 4.0, u(0.001, 0.05)]), rng.choice([-1.5, 0.05, u(-2, 0.1)])
            s.kap, s.hth, s.sv, s.v0 = rng.choice([15.0, 0.01]), rng.choice([2.0, 1e-4]), rng.choice([3.0, 1e-3]), rng.choice([5.0, 1e-5, u(1, 6)])
            s.rho = rng.choice([0.9999, -0.9999, 0.99, s.rho])
        if rng.random() < 0.1:                             # and on every scale
            x = lambda a, b: 10 ** u(a, b)
            s.lam, s.sJ, s.e1, s.e2, s.nu, s.kap, s.hth, s.sv, s.v0 = x(-4, 1.4), x(-4, .1), 1 + x(-1.5, 3), x(-2, 3), x(-5, .5), x(-3, 1.2), x(-5, .2), x(-4, .5), x(-6, .6)
            s.muJ, s.th = rng.choice([-1, 1]) * x(-4, -.3), rng.choice([-1, 1]) * x(-4, -1)
        if 0.85 < s.e1 / s.e2 < 1.18: s.e2 *= 1.5          # the driver tells laws apart by sampling them
        sc = rng.choice(["none", "none", "euler", "milstein", "milstein", "custom"])
        s.scheme = sc if sc != "custom" else "custom " + " ".join(hx(x) for x in (u(0.3, 1.1), u(-0.1, 0.1), u(-0.2, 0.3), u(-0.05, 0.05), u(-0.1, 0.1)))
    def pars(s):
        h = [s.kap, s.hth, s.sv, s.rho, s.v0]; j = [s.lam, s.muJ, s.sJ]
        n = {"gbm": [], "merton": j, "kou": [s.lam, s.p, s.e1, s.e2], "vg": [s.nu, s.th], "heston": h, "bates": h + j}[s.kind]
        return " ".join(hx(x) for x in n) + (" " + s.scheme if s.kind in ("heston", "bates") else "")
    def laws(s, rng, T, steps):
        dt = T / steps
        nz = 2 * steps if s.kind in ("heston", "bates") else steps
        out = ["normal %s %s %s" % (hx(0.0), hx(1.0), vals([z(rng) for _ in range(nz + 2)]))]
        if s.kind in ("merton", "kou", "bates"):
            cnt = [rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, 7), rng.randint(0, 30) if steps < 9 else 1]) for _ in range(steps)]; n = sum(cnt) + 2
            out.append("poisson %s %s %s" % (hx(s.lam * dt), hx(0.0), vals([float(x) for x in cnt])))
            if s.kind == "kou":
                us = [rng.random() for _ in range(n)]
                us = [u if min(abs(u - s.p), abs(u - 1 + s.p)) > 1e-6 else 0.123456 for u in us]
                out += ["uniform %s %s %s" % (hx(0.0), hx(1.0), vals(us)), "exp %s %s %s" % (hx(s.e1), hx(0.0), vals([rng.expovariate(s.e1) for _ in range(n)])), "exp %s %s %s" % (hx(s.e2), hx(0.0), vals([rng.expovariate(s.e2) for _ in range(n)]))]
            else: out.append("normal %s %s %s" % (hx(s.muJ), hx(s.sJ), vals([rng.gauss(s.muJ, s.sJ) for _ in range(n)])))
        if s.kind == "vg": out.append("gamma %s %s %s" % (hx(dt / s.nu), hx(1 / s.nu), vals([max(rng.gammavariate(dt / s.nu, s.nu), 1e-12) for _ in range(steps + 1)])))
        return "%d %s" % (len(out), " ".join(out))
    def sim(s, rng, m, steps):
        T = mat(rng)
        # (an explicit scheme far outside its stability region amplifies rounding without bound)
        if s.kind in ("heston", "bates"): T = min(T, 1.37 * steps / max(s.kap, 0.1))
        if s.kind in ("merton", "kou", "bates"): T = min(T, 150 / s.lam)   # prices stay finite
        return "sim %d %s %s %s" % (m, hx(T), rng.choice(["path", "path", "mat"]), s.laws(rng, T, steps))
def vgsafe(m, sig): return 1 - m.th * m.nu - 0.5 * sig * sig * m.nu > 0.05
def one(rng, kinds, maxsteps=8, full=False):
    kind = rng.choice(kinds); m = Mod(rng, kind); sig = vol(rng)
    while kind == "vg" and not vgsafe(m, sig): m = Mod(rng, kind)
    steps = rng.choice([1, 2, 3, 5, maxsteps]) if not full else maxsteps
    out = ["reg A %s %s %s" % (hx(spot(rng)), hx(sig), coup(rng)), "rate %s" % hx(rt(rng)), "model 1 %s A %d %s" % (kind, steps, m.pars())]
    for _ in range(rng.randint(1, 3)): out.append(m.sim(rng, 1, steps))
    return " ".join(out)

def crowd(rng, kind):
    """Several models of one kind, alike but for a parameter, the stock or the number of steps, used in turn."""
    sig = vol(rng); m = Mod(rng, kind)
    while kind == "vg" and not vgsafe(m, sig): m = Mod(rng, kind)
    m2 = copy.copy(m); o = Mod(rng, kind)
    for f in rng.sample({"gbm": ["kind"], "merton": ["lam", "muJ", "sJ"], "kou": ["lam", "p", "e1", "e2"], "vg": ["nu", "th"], "heston": ["kap", "hth", "sv", "rho", "v0", "scheme"], "bates": ["kap", "hth", "sv", "rho", "v0", "scheme", "lam", "muJ", "sJ"]}[kind], 1): setattr(m2, f, getattr(o, f))
    if kind == "vg" and not vgsafe(m2, sig): m2 = m
    if 0.85 < m2.e1 / m2.e2 < 1.18: m2.e2 *= 1.5
    st = [rng.choice([1, 2, 3]) for _ in range(3)]
    if rng.random() < .6: st = st[:1] * 3
    out = ["reg A %s %s %s" % (hx(spot(rng)), hx(sig), coup(rng)), "reg B %s %s %s" % (hx(spot(rng)), hx(sig), coup(rng)), "rate %s" % hx(rt(rng))]
    ms = [(1, m, "A"), (2, m2, "A"), (3, m, "B")]
    out += ["model %d %s %s %d %s" % (k, kind, t, st[k - 1], x.pars()) for k, x, t in ms]
    for k in (1, 2, 3, 1) if rng.random() < .5 else [rng.randint(1, 3) for _ in range(5)]: out.append(ms[k - 1][1].sim(rng, k, st[k - 1]))
    return " ".join(out)

def C15(c):
    rng = c.rng
    law(c, ["gbm"])
    st = [one(rng, ["gbm"], rng.choice([8, 20, 60])) for _ in range(c.scale(300, 4000))] + [one(rng, ["gbm"], k, True) for k in (52, 100, 252, 365, 1000) * c.scale(1, 6)] + [crowd(rng, "gbm") for _ in range(c.scale(40, 400))]
    for _ in range(c.scale(300, 3000)):
        S = spot(rng); out = ["reg A %s %s %s" % (hx(S), hx(vol(rng)), coup(rng)), "rate %s" % hx(rt(rng)), "model 1 gbm A 4"]
        for _ in range(6):
            tn = rng.choice([1.0, rng.uniform(0.01, 5), 0.25, 10 ** rng.uniform(-7, 2)]); tj = tn * rng.choice([0.5, rng.uniform(0.01, 0.99), 51 / 52, 1 / 52, 0.75])
            out.append("back 1 %s %s %s 1 normal %s %s %s" % (hx(S * math.exp(rng.gauss(0, 0.5))), hx(tj), hx(tn), hx(0.0), hx(1.0), vals([z(rng), z(rng)])))
            if rng.random() < 0.3: out.append("upd A S %s" % hx(S * rng.uniform(0.5, 2)))
            if rng.random() < 0.3: out.append("upd A sig %s" % hx(vol(rng)))
        st.append(" ".join(out))
    run(c, st)

def refusals(rng, kind):
    """Parameters at and beyond the edge of the domain."""
    m = Mod(rng, kind); tiny = 5e-324
    edge = {"merton": [("sJ", [0.0, -0.1, -tiny, 1e-9, -0.0])], "vg": [("nu", [0.0, -0.2, -tiny, 1e-6])],
            "kou": [("p", [-tiny, -0.1, 0.0, 1.0, nextafter(1.0), 1.5]), ("e1", [1.0, nextafter(1.0), nextafter(1.0, False), 0.5, 0.0, -2.0, 1.01]), ("e2", [0.0, -tiny, -1.0, 1e-3])],
            "heston": [("rho", [-1.0, 1.0, nextafter(1.0), -nextafter(1.0), 2.0]), ("v0", [0.0, -tiny, -0.1]), ("sv", [0.0, -tiny, -0.3])],
            "bates": [("rho", [-1.0, 1.0, nextafter(1.0), -nextafter(1.0), -3.0]), ("v0", [0.0, -0.1, 1e-9]), ("sv", [0.0, -0.3, 1e-9]), ("kap", [0.0, -1.0, 1e-9]), ("sJ", [0.0, -0.1, 1e-9])]}[kind]
    st = []
    for f, vs in edge:
        for v in vs:
            m = Mod(rng, kind); setattr(m, f, v)
            if kind in ("heston",):
                if m.kap == 0: m.kap = 1.0
            st.append(" ".join(["reg A %s %s none" % (hx(100), hx(0.05)), "model 1 %s %s 3 %s" % (kind, rng.choice(["A", "A", "A", "NOPE"]), m.pars())]))
    return st

def C16(c):
    rng = c.rng
    law(c, ["merton", "kou", "vg"])
    st = [one(rng, [k]) for k in ("merton", "kou", "vg") for _ in range(c.scale(180, 2500))] + [one(rng, [k], n, True) for k in ("merton", "kou", "vg") for n in (52, 100, 252) * c.scale(1, 6)] + [crowd(rng, k) for k in ("merton", "kou", "vg") for _ in range(c.scale(60, 600))]
    for k in ("merton", "kou", "vg"):
        for _ in range(c.scale(2, 8)): st += refusals(rng, k)
    # compensation follows the volatility in force
    for _ in range(c.scale(60, 600)):
        m = Mod(rng, "vg")
        while not (vgsafe(m, 0.5)): m = Mod(rng, "vg")
        out = ["reg A %s %s none" % (hx(100), hx(rng.uniform(0.05, 0.5))), "model 1 vg A 2 %s" % m.pars()]
        for _ in range(3): out += ["upd A sig %s" % hx(rng.uniform(0.0, 0.5)), m.sim(rng, 1, 2)]
        st.append(" ".join(out))
    run(c, st)

def C17(c):
    rng = c.rng
    law(c, ["heston", "bates"])
    st = [one(rng, [k]) for k in ("heston", "bates") for _ in range(c.scale(250, 3500))] + [one(rng, [k], n, True) for k in ("heston", "bates") for n in (30, 52, 100) * c.scale(1, 6)] + [crowd(rng, k) for k in ("heston", "bates") for _ in range(c.scale(90, 900))]
    for k in ("heston", "bates"):
        for _ in range(c.scale(2, 8)): st += refusals(rng, k)
    for _ in range(c.scale(200, 2000)):
        out = []
        for _ in range(5):
            out.append("cir %s %s %s %s %s %s %s" % (rng.choice(["euler", "milstein"]), hx(rng.choice([0.04, rng.uniform(0, 1), -0.01, 0.0, -rng.random()])), hx(rng.choice([0.01, 1 / 52, rng.uniform(0.001, 1)])),
                                                     hx(rng.uniform(0, 5)), hx(rng.uniform(0, 0.5)), hx(rng.uniform(0, 2)), hx(z(rng))))
        st.append(" ".join(out))
    run(c, st, "1e-8")

HIST = """SPECIFICATION Spec
CONSTANTS
 Mks = {%s}
 Tickers = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS SimUsesCurrent Valid Complete
CHECK_DEADLOCK FALSE
"""
def histories(c, n, ops):
    t = vf.tlc("ModelsHist", HIST % ('"sing", "own"', '"A", "B"', ops, "TRUE"), c.work, name="ModelsGen", workers=1,
               args=["-simulate", "num=%d" % n, "-depth", str(ops + 2), "-seed", str(c.seed + 5)], timeout=300)
    hs, seen = [], set()
    for l in t.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', l)
        if m and m.group(1) not in seen: seen.add(m.group(1)); hs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if len(hs) < n // 10: raise vf.CheckError("TLC generated only %d histories: %s" % (len(hs), t.out[-1500:]))
    c.rng.shuffle(hs)
    return hs[:n]
KINDS = ["gbm", "merton", "kou", "vg", "heston", "bates"]
def C18(c):
    rng = c.rng
    c.model("ModelsHist", HIST % ('"sing"', '"A", "B"' if c.thorough else '"A"', c.scale(5, 5), "FALSE"))
    c.model("ModelsHist", HIST % ('"sing", "own"', '"A"', c.scale(4, 5), "FALSE"), name="ModelsHist_sources")
    st = []
    neg = lambda: rng.choice([-1.0, -1e-9, -5e-324, float("nan")])
    for h in histories(c, c.scale(450, 4000), 16):
        out, live, known = [], {}, set()
        sigmax = 0.4
        for e in h:
            o = e["op"]
            if "k" in e: out.append("use " + e["k"]); k0 = e["k"]
            if o == "rate": out.append("rate %s" % hx(rt(rng)))
            elif o == "reg":
                q = e["q"]; ok = q["S"] != "0" and q["sig"] != "-1"
                if ok: known.add((k0, e["t"]))
                out.append("reg %s %s %s %s" % (e["t"], hx(spot(rng) if q["S"] != "0" else rng.choice([0.0, -3.0, float("nan")])), hx(gentle(rng) if q["sig"] != "-1" else neg()), coup(rng)))
            elif o == "upd":
                f, v = e["f"], e["v"]
                x = {"S3": spot(rng), "S-1": rng.choice([0.0, neg()]), "sig2": gentle(rng), "sig-1": neg(), "c1": rng.choice([0.0, 1.0, rng.uniform(0, 0.2)]), "c2": rng.choice([neg(), 1.5, nextafter(1.0)])}[f + v]
                out.append("upd %s %s %s" % (e["t"], f, hx(x)))
            elif o == "model":
                k = rng.choice(KINDS); m = Mod(rng, k)
                while k == "vg" and not vgsafe(m, sigmax): m = Mod(rng, k)
                steps = rng.choice([1, 2, 3])
                if (k0, e["t"]) in known: live[e["m"]] = (m, steps)
                out.append("model %d %s %s %d %s" % (e["m"], k, e["t"], steps, m.pars()))
            elif o == "sim":
                m, steps = live[e["m"]]
                out.append(m.sim(rng, e["m"], steps))
                for k, t in sorted(known): out.append("use %s read %s" % (k, t))
        st.append(" ".join(out))
    lines = st
    # every kind of model under a fixed sequence: create, change everything, re-register, other ticker, reject
    for k in KINDS:
        for _ in range(c.scale(15, 150)):
            m = Mod(rng, k)
            while k == "vg" and not vgsafe(m, sigmax): m = Mod(rng, k)
            ops = ["upd A S %s" % hx(spot(rng)), "upd A sig %s" % hx(gentle(rng)), "upd A c %s" % hx(rng.uniform(0, 0.2)), "rate %s" % hx(rt(rng)), "upd A sig %s" % hx(neg()), "upd A S %s" % hx(0.0),
                   "reg A %s %s %s" % (hx(spot(rng)), hx(gentle(rng)), coup(rng)), "upd B S %s" % hx(spot(rng)), "reg B %s %s none" % (hx(spot(rng)), hx(0.1)), "reg A %s %s none" % (hx(-1.0), hx(0.1))]
            rng.shuffle(ops)
            out = ["reg A %s %s %s" % (hx(spot(rng)), hx(gentle(rng)), coup(rng)), "reg B %s %s none" % (hx(spot(rng)), hx(0.3)), "model 1 %s A 2 %s" % (k, m.pars()), "model 2 %s B 2 %s" % (k, m.pars()), m.sim(rng, 1, 2)]
            for o in ops:
                out.append(o)
                if rng.random() < 0.6: out += [m.sim(rng, rng.choice([1, 1, 2]), 2)]
            out += [m.sim(rng, 1, 2), "read A read B"]
            lines.append(" ".join(out))
    # changes too small to matter to anyone but the model that must follow them, there and back
    for k in KINDS:
        for _ in range(c.scale(10, 100)):
            m = Mod(rng, k)
            while k == "vg" and not vgsafe(m, sigmax): m = Mod(rng, k)
            q = {"S": spot(rng), "sig": rng.uniform(0.02, 0.38), "c": rng.uniform(0.01, 0.2), "r": rng.choice([0.05, rng.uniform(0.01, 0.2), -0.02])}
            out = ["reg A %s %s %s" % (hx(q["S"]), hx(q["sig"]), hx(q["c"])), "rate %s" % hx(q["r"]), "model 1 %s A 2 %s" % (k, m.pars()), m.sim(rng, 1, 2)]
            for f in rng.sample(list(q), 4):
                for x in (q[f] * (1 + rng.choice([1, -1]) * 10 ** rng.uniform(-5, -1.7)), q[f]):
                    out += ["rate %s" % hx(x) if f == "r" else "upd A %s %s" % (f, hx(x)), m.sim(rng, 1, 2)]
            lines.append(" ".join(out))
    run(c, lines, "1e-8")

def C19(c):
    rng = c.rng
    law(c, KINDS)
    st = []
    u = rng.uniform
    par = {"gbm": lambda: [], "merton": lambda: [rng.choice([1.0, u(0.2, 3)]), u(-0.3, 0.2), u(0.05, 0.3)],
           "kou": lambda: [rng.choice([1.0, u(0.2, 3)]), rng.choice([0.0, 0.3, 0.6, 1.0]), u(7, 20), u(2, 15)],
           "vg": lambda: [u(0.1, 0.6), rng.choice([-0.2, 0.0, 0.1, u(-0.3, 0.15)])],
           "heston": lambda: [u(0.5, 4), u(0.02, 0.15), u(0.1, 0.8), rng.choice([-0.7, 0.0, 0.5, -1.0, 1.0]), u(0.02, 0.2)],
           "bates": lambda: [u(0.5, 4), u(0.02, 0.15), u(0.1, 0.8), rng.choice([-0.7, 0.4]), u(0.02, 0.2), u(0.2, 2), u(-0.3, 0.2), u(0.05, 0.3)]}
    for kind in KINDS:
        for rep in range(c.scale(12, 60)):
            mk = lambda: [rng.choice([0.2, u(0.05, 0.4)]), rng.choice(["none", hx(0.0), hx(0.04), hx(0.1)]), rng.choice([0.0, 0.05, 0.1, -0.02]), rng.choice([1.0, 0.25, 2.0])]
            m, ps = mk(), par[kind](); k = rng.randint(0, 5)
            # what was simulated before in the same process: the same model but for its parameters (or one of them), in another market, or for another maturity
            before = (m, [v if rng.random() < .5 else w for v, w in zip(ps, par[kind]())] if k < 2 else par[kind]()) if k < 4 else (mk() if k == 4 else m[:3] + [m[3] * 2], ps)
            st.append("%s %s %s %s %s %s %s %d %d %d %s %s %s %s %s %s" % (kind, hx(100.0), hx(m[0]), m[1], hx(m[2]), hx(m[3]), hx(rng.choice([80.0, 100.0, 125.0])), rng.choice([1, 2, 4, 12]), c.scale(60000, 400000), rng.randint(1, 10 ** 9), vals(ps),
                                                                           hx(before[0][0]), before[0][1], hx(before[0][2]), hx(before[0][3]), vals(before[1])))
    exe = vf.build("drv_stat", DIRS + ["payoff", "option", "numerical_analysis", "solver/monte_carlo"], variant="opt")
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("ModelsStat", lambda s, o: dict(o["c"], id=s["id"]), exe, st, case_timeout=60, shards=8)
