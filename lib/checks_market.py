import json, os, re
import vf
from vf import hx

DIRS = ["market_data", "payoff", "option"]

MC = """SPECIFICATION Spec
CONSTANTS
 Tks = {%(tks)s}
 Obs = {%(obs)s}
 Hands = {%(hands)s}
 Prices = {%(prices)s}
 Sigmas = {%(sigmas)s}
 Yields = {%(yields)s}
 Rates = {%(rates)s}
 MaxOps = %(ops)d
 MaxRegs = %(regs)d
 MaxDepth = %(depth)d
 Emit = %(emit)s
INVARIANTS RecordsValid HandlesLive RegsLive NothingOwedIdle OwedAlive LingerNested MTypeOK CanEnd Complete
PROPERTIES PropAllOrNothing PropOneChange
CHECK_DEADLOCK FALSE
"""
def mc(**k):
    d = dict(tks=["A", "B"], obs=["o1", "o2"], hands=["h1"], prices=["1", "0"], sigmas=["1", "nan"], yields=["none", "2"], rates=["0"],
             ops=4, regs=2, depth=2, emit="FALSE")
    d.update(k)
    for x in ("tks", "obs", "hands", "prices", "sigmas", "yields", "rates"): d[x] = ", ".join('"%s"' % v for v in d[x])
    return MC % d

# ---------------------------------------------------------------- concrete values
@vf.nudged(0.15, keep=lambda x: x > 0, ulp=True)
def price(rng, ok=True):
    if ok:
        return rng.choice([lambda: rng.uniform(1, 500), lambda: 10 ** rng.uniform(-8, 8), lambda: 100.0, lambda: 1.0, lambda: 5e-324,
                           lambda: 1e300, lambda: float(rng.randint(1, 1000)), lambda: 1e-9, lambda: 0.5])()
    return rng.choice([0.0, -0.0, -5e-324, -1e-12, -1.0, -100.0, -1e300, float("nan"), -rng.uniform(0, 10)])
@vf.nudged(0.15, keep=lambda x: x >= 0, ulp=True)
def sigma(rng, ok=True):
    if ok:
        return rng.choice([lambda: rng.uniform(0, 1), lambda: 0.0, lambda: 0.2, lambda: rng.uniform(1, 20), lambda: 1.0, lambda: 1e-12, lambda: 5.0])()
    return rng.choice([-1e-12, -0.2, -1.0, -5e-324, float("nan"), -rng.uniform(0, 1)])
@vf.nudged(0.15, keep=lambda x: 0 <= x <= 1, ulp=True)
def yld(rng, ok=True):
    if ok:
        return rng.choice([lambda: None, lambda: rng.uniform(0, 1), lambda: 0.0, lambda: 1.0, lambda: 0.03, lambda: 1e-15, lambda: 0.999999999])()
    return rng.choice([-1e-9, 1.0000000000000002, 1.5, -0.02, float("nan"), 2.0, -5e-324, 100.0])
@vf.nudged(0.15, keep=lambda x: True, ulp=True)
def rate(rng):
    return rng.choice([lambda: rng.uniform(-0.05, 0.2), lambda: 0.0, lambda: 0.05, lambda: -0.01, lambda: rng.uniform(-1, 3)])()
def c2(x): return "none" if x is None else hx(x)

FACS = ["european", "digital", "ddigital", "american", "arith", "geom", "knockin", "knockout", "floatlb", "fixedlb"]
def mkopt(rng, o, t, k, mat):
    f = rng.choice(["probe"] * 8 + FACS)
    if f == "floatlb" and k < 0: f = "fixedlb"            # takes no strike
    return "mkopt %s %s %s %s %s %s" % (o, t, hx(k), hx(mat), rng.choice("cp"), f)

# ---------------------------------------------------------------- histories from TLC
def histories(c, n, ops, depth, seed, **kw):
    """Complete histories of MarketMC, from TLC's simulator (seeded)."""
    cfg = mc(emit="TRUE", ops=ops, depth=depth, prices=["1", "2", "0", "-1", "nan"], sigmas=["1", "0", "-1", "nan"],
             yields=["none", "0.5", "1", "2", "-1", "nan"], rates=["0", "1"], obs=["o1", "o2", "o3"], hands=["h1", "h2"], regs=5, **kw)
    t = vf.tlc("MarketMC", cfg, c.work, name="MarketGen%d_%d" % (ops, depth), workers=1,
               args=["-simulate", "num=%d" % n, "-depth", "200", "-seed", str(seed)], timeout=300)
    hs, seen = [], set()
    for l in t.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', l)
        if not m: continue
        s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        if s in seen: continue
        seen.add(s); hs.append(json.loads(s))
    if len(hs) < n // 20: raise vf.CheckError("TLC generated only %d histories: %s" % (len(hs), t.out[-1500:]))
    return hs

def program_of(h, rng):
    """Turn a TLC history into a program: top-level operations plus observer reactions; abstract values become doubles."""
    vals = {}
    def conc(kind, v):
        if v in ("none", "nan"): return v
        k = (kind, v)
        if k in vals: return vals[k]
        ok = {"p": v in ("1", "2"), "s": v in ("1", "0"), "y": v in ("0.5", "1"), "r": True}[kind]
        if v == "nan": x = float("nan")
        elif kind == "p": x = price(rng, ok)
        elif kind == "s": x = 0.0 if v == "0" else sigma(rng, ok)
        elif kind == "y":
            x = 1.0 if v == "1" else yld(rng, ok)
            if ok and x is None: x = 0.25
        else: x = rate(rng)
        vals[k] = hx(x)
        return vals[k]
    inc, cur = {}, {}
    main, react, counts, target = [], {}, {}, {}
    for e in h:
        d = e["d"]
        if e["e"] == "deliver":
            o = cur.get(e["o"], e["o"]); counts[o] = counts.get(o, 0) + 1
            target[d] = (o, counts[o]); continue
        if e["e"] == "end": target.pop(d, None); continue
        if e["e"] == "change":
            o = e["o"]
            if o["op"] == "add": op = "add %s %s %s %s" % (o["tk"], conc("p", o["S"]), conc("s", o["sig"]), conc("y", o["c"]))
            elif o["op"] == "rate": op = "rate %s" % conc("r", o["v"])
            elif o["op"] == "notify": op = "notify %s" % o["tk"]
            else: op = "%s %s %s" % (o["op"], o["tk"], conc({"price": "p", "sigma": "s", "yield": "y"}[o["op"]], o["v"]))
        elif e["e"] in ("create", "mkopt"):
            inc[e["o"]] = inc.get(e["o"], 0) + 1
            cur[e["o"]] = "%s_%d" % (e["o"], inc[e["o"]])
            if e["e"] == "create": op = "create %s %s" % (cur[e["o"]], e["t"])
            else: op = mkopt(rng, cur[e["o"]], e["t"], rng.uniform(0, 200) if e["k"] == "1" else -rng.uniform(1e-6, 5), rng.choice([0.0, 1.0, 0.25]))
        elif e["e"] in ("register", "drop"): op = "%s %s" % (e["e"], cur.get(e["o"], e["o"]))
        elif e["e"] == "take": op = "take %s %s" % (e["h"], e["t"])
        else: raise vf.CheckError("unknown event " + e["e"])
        if d == 0: main.append(op)
        elif d in target: react.setdefault(target[d], []).append(op)
        # an operation before the first delivery of a notification has no real counterpart: left out
    return main, react

def line(universe, main, react):
    s = "%d %s" % (len(universe), " ".join(universe))
    for (o, j), ops in react.items(): s += " R %s %d ( %s )" % (o, j, " ".join(ops))
    return s + " " + " ".join(main)

def random_program(rng, tickers, nobs, nops, reent, w):
    """Long random histories: w maps operation kind to weight."""
    main, react = [], {}
    live, made = [], 0
    def one(depth):
        nonlocal made
        k = rng.choices(list(w), list(w.values()))[0]
        ok = rng.random() < 0.6
        t = rng.choice(tickers)
        if k == "add":
            bad = rng.randrange(3) if not ok else -1
            return "add %s %s %s %s" % (t, hx(price(rng, bad != 0)), hx(sigma(rng, bad != 1)), c2(yld(rng, bad != 2)))
        if k == "price": return "price %s %s" % (t, hx(price(rng, ok)))
        if k == "sigma": return "sigma %s %s" % (t, hx(sigma(rng, ok)))
        if k == "yield": return "yield %s %s" % (t, c2(yld(rng, ok)))
        if k == "rate": return "rate %s" % hx(rate(rng))
        if k == "notify": return "notify %s" % rng.choice(tickers + ["*"])
        if k == "create" or (k in ("register", "drop") and not live):
            made += 1; o = "x%d" % made; live.append(o)
            return "create %s %s register %s" % (o, t, o) if rng.random() < 0.85 else "create %s %s" % (o, t)
        if k == "mkopt":
            made += 1; o = "x%d" % made; live.append(o)
            return mkopt(rng, o, t, rng.uniform(0, 200) if ok else rng.choice([-1.0, -1e-9, 0.0, 100.0]), rng.choice([0.0, 0.5, 1.0, 2.0, -1.0, -1e-9] if not ok else [0.0, 0.5, 1.0]))
        if k == "register": return "register %s" % rng.choice(live)
        if k == "drop":
            o = rng.choice(live)
            if depth == 0: live.remove(o)
            return "drop %s" % o
        if k == "take": return "take h%d %s" % (rng.randrange(4), t)
        return k
    n0 = rng.randint(1, len(tickers))
    for t in tickers[:n0]: main.append("add %s %s %s %s" % (t, hx(price(rng)), hx(sigma(rng)), c2(yld(rng))))
    for _ in range(nobs): main.append(one(0) if rng.random() < 0.2 else (lambda: (made_one(rng, tickers, live)))())
    for _ in range(nops): main.append(one(0))
    if reent:
        names = list(dict.fromkeys(live)) or ["x1"]
        for _ in range(reent):
            react.setdefault((rng.choice(names), rng.randint(1, 3)), []).append(one(1))
    return main, react

_ctr = [0]
def made_one(rng, tickers, live):
    _ctr[0] += 1
    o = "y%d" % _ctr[0]; live.append(o)
    t = rng.choice(tickers)
    return "create %s %s register %s" % (o, t, o)

def answers(rng, tickers, main):
    """Observers that answer a notification with a change of their own: another stock, the same stock, the rate."""
    react = {}
    for o in [x.split()[1] for op in main for x in [op] if op.startswith("create ")][:12]:
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = rng.choice(tickers)
            react.setdefault((o, rng.randint(1, 4)), []).append(rng.choice([
                lambda: "price %s %s" % (t, hx(price(rng, rng.random() < 0.8))), lambda: "sigma %s %s" % (t, hx(sigma(rng))), lambda: "yield %s %s" % (t, c2(yld(rng))),
                lambda: "rate %s" % hx(rate(rng)), lambda: "notify %s" % t])())
    return react

def hoard(rng):
    """Dozens of handles on one record, taken before and between updates, given up and taken again."""
    tk = rng.sample(NAMES, rng.randint(1, 2))
    main = ["add %s %s %s %s" % (t, hx(price(rng)), hx(sigma(rng)), c2(yld(rng))) for t in tk]
    n, w = rng.choice([9, 17, 33, 65, 130]), 0
    for i in range(n):
        main.append("take h%d %s" % (i, tk[0] if rng.random() < 0.9 else rng.choice(tk)))
        if i in (n // 2, n - 1) or rng.random() < 0.04:
            t = tk[0]
            main.append(rng.choice([lambda: "price %s %s" % (t, hx(price(rng))), lambda: "sigma %s %s" % (t, hx(sigma(rng))), lambda: "yield %s %s" % (t, c2(yld(rng))),
                                    lambda: "add %s %s %s %s" % (t, hx(price(rng)), hx(sigma(rng)), c2(yld(rng)))])())
    main += ["price %s %s" % (tk[0], hx(price(rng))), "rate %s" % hx(rate(rng)), "lose", "sigma %s %s" % (tk[0], hx(sigma(rng)))]
    return tk, main, {}

NAMES = ["AAPL", "MSFT", "A", "a", "GOOG.L", "BRK%20B", "T1", "A" * 70, "~", "AAPL2", "aapl", "X%25Y"]

FAMILY = [["INTERNATIONAL_%s" % x for x in ("A", "B", "AA", "a", "")], ["%s.EXCHANGE" % x for x in ("A", "B", "AB", "b")], ["S%d" % i for i in range(40)], ["AAPL", "AAP", "APL", "AAPLL"], ["~", "~~", "0", "00", "A%20B", "A%20%20B"]]
W = {
 "C01": dict(add=3, price=4, sigma=4, **{"yield": 4}, rate=2, take=0.5, create=0.5, mkopt=0.2, notify=0.3),
 "C02": dict(add=3, price=3, sigma=3, **{"yield": 3}, rate=2, take=4, lose=0.5, mkopt=0.3),
 "C03": dict(add=1.5, price=3, sigma=3, **{"yield": 3}, rate=2, create=2, register=1.5, drop=1.5, mkopt=1.5, clean=0.3, notify=1.5),
 "C04": dict(add=1, price=2, sigma=1, **{"yield": 1}, rate=3, create=2, register=2, drop=3, mkopt=2.5, clean=0.5, lose=0.2, notify=1),
}
FOCUS = {"C01": '{"data"}', "C02": '{"data", "handles"}', "C03": '{"notify"}', "C04": '{"notify"}'}

def stimuli(c, prop):
    rng = c.rng
    st = []
    depth = 2 if prop == "C04" else (1 if prop == "C03" else 1)
    nh = c.scale(1500, 12000)
    for ops, n in ((5, nh // 3), (9, nh // 3), (14, nh // 3)):
        for h in histories(c, n, ops, depth + (1 if ops > 5 and prop == "C04" else 0), c.seed * 7 + ops):
            main, react = program_of(h, rng)
            if main: st.append(("tlc", ["A", "B"], main, react))
    for k in range(c.scale(700, 6000)):
        tk = rng.sample(NAMES, rng.randint(1, 5))
        if k % 4 == 1: f = rng.choice(FAMILY); tk = rng.sample(f, rng.randint(2, len(f)))       # names that resemble each other, many names
        big = k % 12 == 0
        main, react = random_program(rng, tk, rng.randint(0, 40 if big else 5), rng.randint(4, 60 if big else 22),
                                     (rng.randint(1, 10) if prop == "C04" else 0), W[prop])
        if prop == "C03" and k % 3 == 0: react = answers(rng, tk, main)
        st.append(("rnd", tk, main, react))
    if prop in ("C01", "C02"):
        for k in range(c.scale(60, 400)): st.append(("hoard", *hoard(rng)))
    for n in c.scale((300,), (300, 1200)) if prop in ("C03", "C04") else ():            # a crowd
        tk = ["A", "B"]
        main, react = random_program(rng, tk, n, 4, 0, W[prop])
        st.append(("crowd", tk, main + ["rate %s" % hx(.01), "price A %s" % hx(5.0)], react))
    res = []
    for i, (src, tk, main, react) in enumerate(st):
        res.append({"id": "%s%d" % (src, i), "line": line(tk, main, react)})
    return res

def market(c):
    prop = c.prop
    for kw in (dict(ops=c.scale(4, 5), depth=2), dict(ops=c.scale(5, 6), depth=1, tks=["A"], obs=["o1"], prices=["1", "2", "0"], yields=["none", "0.5", "nan"])):
        c.model("MarketMC", mc(**kw), name="MarketMC_%d" % len(c.notes.get("model_checked", [])))
    exe = vf.build("drv_market", DIRS)
    st = stimuli(c, prop)
    c.conform("MarketTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace",
              extra_cfg="CONSTANT Focus = %s\nINVARIANT TInv\n" % FOCUS[prop])

C01 = C02 = C03 = C04 = market

ONCE_MC = """SPECIFICATION OSpec
CONSTANT Threads = {%s}
INVARIANTS OneInstance Same Complete Mutex
PROPERTY Answered
CHECK_DEADLOCK FALSE
"""
def C05(c):
    import subprocess
    c.model("Once", ONCE_MC % ", ".join(map(str, range(1, c.scale(4, 5) + 1))), name="Once")
    rng = c.rng
    def stim(tag, n, mt):
        res = []
        for k in range(n):
            nt = rng.randint(2, mt)
            sl = rng.choice([0, 200, 1000, 3000])
            delays = [rng.choice([0, 0, 0, rng.randint(0, 300), rng.randint(0, 3000)]) for _ in range(nt)]
            res.append({"id": "%s%d" % (tag, k), "line": "%d %d %d %d %s" % (nt, rng.randint(1, 2), sl, rng.randint(0, 1), " ".join(map(str, delays)))})
        return res
    cfg = "CONSTANT Threads = {%s}\nINVARIANTS OneInstance Same Complete\n"
    mk = lambda s, o: {"id": s["id"], "ev": o["ev"]}
    # few threads: every recorded history is searched for an interleaving of the full specification
    exe = vf.build("drv_once", ["market_data"], "opt")
    c.conform("OnceTrace", mk, exe, stim("t", c.scale(160, 1500), 4), kind="trace", name="OnceTrace", extra_cfg=cfg % "1, 2, 3, 4", shards=2, repeat=False)
    c.conform("OnceTrace", mk, exe, stim("m", c.scale(24, 120), 6), kind="trace", name="OnceTraceMany", extra_cfg=cfg % "1, 2, 3, 4, 5, 6", shards=2, repeat=False)
    ts = vf.build("drv_once", ["market_data"], "tsan")
    ts, env = vf.tsan(c, ts, ["x"])
    if not ts: return
    c.conform("OnceTrace", mk, ts, stim("r", c.scale(60, 400), 4), kind="trace", name="OnceTraceRace", extra_cfg=cfg % "1, 2, 3, 4", env=env, shards=2, repeat=False)
