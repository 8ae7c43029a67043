import concurrent.futures as cf
import json, math, re
import vf
from vf import hx, nextafter

DIRS = ["market_data", "payoff", "option", "model", "random", "numerical_analysis", "solver"]
MC = """SPECIFICATION Spec
CONSTANTS
 Mode = "%s"
 Facs = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS MarketValid OptsLive EqualSound EqualAlike LinesComplete Complete
PROPERTY Inert
CHECK_DEADLOCK FALSE
"""
FACS = ["european", "digital", "ddigital", "american", "arith", "geom", "knockin", "knockout", "floatlb", "fixedlb"]
def mc(mode, facs, ops, emit=False):
    s = MC % (mode, ", ".join('"%s"' % f for f in facs), ops, "TRUE" if emit else "FALSE")
    return re.sub("INVARIANTS.*\nPROPERTY Inert\n", "INVARIANT Complete\n", s) if emit else s

def histories(c, mode, facs, n, ops):
    t = vf.tlc("SystemMC", mc(mode, facs, ops, True), c.work, name="SystemGen" + mode, workers=1,
               args=["-simulate", "num=%d" % n, "-depth", str(ops + 2), "-seed", str(c.seed + ops)], timeout=300)
    hs, seen = [], set()
    for l in t.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', l)
        if m and m.group(1) not in seen:
            seen.add(m.group(1)); hs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if len(hs) < n // 20: raise vf.CheckError("TLC generated only %d histories: %s" % (len(hs), t.out[-1500:]))
    c.rng.shuffle(hs)
    return hs[:n]

# ------------------------------------------------------------------ what a printed text says
def lines(text):
    out, sec = [], ""
    for l in text.split("\n"):
        if not l.strip(): continue
        m = re.match(r"^\s*->\s*([^:]+):\s*(.*)$", l)
        if not m:
            sec = l.strip().rstrip(":"); continue
        lab, val = m.group(1).strip(), m.group(2)
        if lab == "Stike": lab = "Strike"
        tok = val.split()[0] if val.split() else ""
        x = tok if re.match(r"^[-+]?\d+(\.\d*)?([eE][-+]?\d+)?$", tok) else ""
        out.append({"sec": sec, "lab": lab, "txt": val.rsplit("::", 1)[-1] if lab == "Type" else val, "x": x.replace("+", "")})
    return out
def case(s, o):
    for e in o["ev"]:
        if e["e"] == "print" and "text" in e: e["lines"] = lines(e.pop("text"))
    return {"id": s["id"], "ev": o["ev"]}

# ------------------------------------------------------------------ requests
MODELS = ["gbm", "gbm", "merton", "kou", "vg", "heston", "hestonm", "bates"]
def which(rng, m): return m if m == "gbm" or rng.random() < .4 else "%s/%d" % (m, rng.choice([2, 3]))
BASES = ["monomial2", "monomial3", "legendre2", "legendre3", "chebyshev2", "chebyshev4", "laguerre2", "laguerre3", "monomial1"]
def mcreq(rng, n=None, model=None):
    m = model or rng.choice(MODELS)
    g = rng.choice(["pseudo", "pseudo", "sobol", "faure"]) if m in ("gbm", "heston", "hestonm") else "pseudo"
    steps = rng.choice([1, 2, 3, 4, 5, 8, 12])
    return "mc %s %s %d %d %d %s %s %s" % (which(rng, m), g, rng.randint(0, 99), steps, n or rng.choice([1, 2, 7, 16, 40]), rng.choice(["std", "std", "bridge"]) if m == "gbm" else "std", *rng.choice([("def", "-"), (rng.choice(["ls", "ridge", "ridge2", "lasso", "lasso2"]), rng.choice(BASES))]))
def fdmreq(rng, scheme=None):
    s = scheme or rng.choice(["explicit", "implicit", "cn"])
    return "fdm %s %s %d %d %s" % (s, rng.choice(["linear", "quadratic"]), rng.choice([8, 13, 20]), rng.choice([6, 15, 40]), "-" if s == "explicit" else rng.choice(["thomas", "lu", "pplu"]))
def pathreq(rng, model=None):
    m = model or rng.choice(MODELS); g = rng.choice(["pseudo", "sobol", "faure"]) if m in ("gbm", "heston", "hestonm") else "pseudo"
    return "path %s %s %d %d %d" % (which(rng, m), g, rng.randint(0, 99), rng.choice([1, 2, 5, 12]), rng.randint(1, 4))
def anyreq(rng, f):
    if f == "european" and rng.random() < .5: return fdmreq(rng)
    k = rng.random()
    return "calc" if k < .03 else "text" if k < .08 else pathreq(rng) if k < .2 else mcreq(rng)
def variant(rng, r, f):
    """The same request but for one thing (model and generator count as one, so do regression and basis)."""
    a = r.split()
    for _ in range(50):
        b = (mcreq(rng) if a[0] == "mc" else fdmreq(rng, a[1]) if a[0] == "fdm" else pathreq(rng) if a[0] == "path" else anyreq(rng, f)).split()
        if a[0] not in ("mc", "fdm", "path"): return " ".join(b)
        if len(a) != len(b): continue
        if a[0] == "fdm": i = rng.choice([2, 3, 4, 5]); a[i] = b[i]; return " ".join(a)
        if a[0] == "path": i = rng.choice([1, 3, 4, 5]); return " ".join(a[:1] + b[1:3] + a[3:] if i == 1 else a[:i] + [b[i]] + a[i + 1:])
        i = rng.choice([1, 3, 4, 5, 7, 7])
        if i == 7 and ("def" in a or "def" in b): continue
        if i == 1 and b[1] != "gbm" and a[6] != "std": continue
        if i == 1: return " ".join(a[:1] + b[1:3] + a[3:])
        if i == 7:
            k = rng.choice([(7, 8), (8, 9), (7, 9)]); return " ".join(a[:k[0]] + b[k[0]:k[1]] + a[k[1]:])
        return " ".join(a[:i] + [b[i]] + a[i + 1:])
    return " ".join(b)
def kept(rng, r): return r + " keep" if r.split()[0] in ("mc", "fdm") and " def " not in r and " default " not in r and rng.random() < .35 else r
def ask(i, r, rng=None):
    if rng: r = kept(rng, r)
    return "price %d %d %s" % (i, len(r.split()), r)

# ------------------------------------------------------------------ values
@vf.nudged(0.15, keep=lambda x: x > 0)
def price(rng): return rng.choice([100.0, rng.uniform(20, 200), rng.uniform(0.5, 5), 42.0])
@vf.nudged(0.15, keep=lambda x: True)
def rate(rng): return rng.choice([0.05, 0.0, -0.01, rng.uniform(-0.05, 0.15), 0.03])
@vf.nudged(0.15, keep=lambda x: x >= 0)
def sigma(rng): return rng.choice([0.2, 0.0, rng.uniform(0.05, 0.8)])
def bag(rng, b, t, S, T=None, f=None):
    k1 = S * rng.uniform(0.7, 1.3); d = rng.choice(["up", "down"])
    v = {"T": T if T is not None else rng.choice([1.0, 0.5, rng.uniform(0.1, 3)]), "K": rng.choice([S, S * rng.uniform(0.7, 1.3)]), "K1": k1, "K2": k1 * rng.uniform(1, 1.5), "B": S * (rng.uniform(1, 1.3) if d == "up" else rng.uniform(0.7, 1))}
    return " ".join(["set %d ticker string %s" % (b, t), "set %d direction dir %s" % (b, d)] + ["set %d %s double %s" % (b, n, hx(x)) for n, x in v.items()]), v
TICK = ["A", "B"]
def concrete(rng, h, req=anyreq):
    """A history generated by TLC as a session: abstract values become doubles."""
    p = {"1": price(rng), "-1": rng.choice([-1.0, 0.0, -50.0])}; p["2"] = p["1"] * rng.choice([1.1, 0.9, rng.uniform(0.5, 1.5)])
    y = {"none": "none", "0": hx(rng.choice([0.0, 0.03, rng.uniform(0, .1)])), "2": hx(2.0)}
    r = {"0": rate(rng), "1": rate(rng)}; sg = sigma(rng); T = rng.choice([1.0, 0.5, rng.uniform(0.1, 3)])
    kind, reqs, out = {}, {}, ["2 A B"]
    same = rng.random() < .6
    for e in h:
        k = e["e"]
        if k == "start":
            b1, v1 = bag(rng, 1, "A", p["1"], T)
            b2 = b1.replace("set 1 ticker string A", "set 1 ticker string B").replace("set 1 ", "set 2 ") if same else bag(rng, 2, "B", p["1"], T)[0]
            out += ["change add %s %s %s none" % (t, hx(p["1"]), hx(sg)) for t in TICK] + [b1, b2, "observe p A observe q B"]
        elif k == "set": out.append("set %d %s %s %s" % (e["b"], e["n"], e["ty"], hx(float(p["1"]) * int(e["v"])) if e["ty"] == "double" else e["v"]))
        elif k == "copy": out.append("copy %d %d" % (e["a"], e["b"]))
        elif k == "new": out.append("new %d" % e["b"])
        elif k == "change":
            o = e["o"]
            if o["op"] == "rate": out.append("change rate %s" % hx(r[o["v"]]))
            elif o["op"] == "add": out.append("change add %s %s %s none" % (o["tk"], hx(p["1"]), hx(sg)))
            elif o["op"] == "price": out.append("change price %s %s" % (o["tk"], hx(p[o["v"]])))
            else: out.append("change yield %s %s" % (o["tk"], y[o["v"]]))
        elif k == "unobserve": out.append("unobserve %s" % e["o"])
        elif k == "create": kind[e["i"]] = e["f"]; out.append("create %d %s %s %d" % (e["i"], e["f"], e["cp"], e["b"]))
        elif k == "settle": out.append("settle %d" % e["i"])
        elif k == "cmp": out.append("cmp %d %d" % (e["i"], e["j"]))
        elif k == "print": out.append("print %d option def 17 A" % e["i"])
        elif k == "price":
            kq = (kind.get(e["i"]), e["q"])
            if kq not in reqs: reqs[kq] = req(rng, kq[0])
            out.append(ask(e["i"], reqs[kq], rng))
        elif k == "sim":
            if "sim" not in reqs: reqs["sim"] = simreq(rng)
            out.append("sim %s %s" % (e["t"], reqs["sim"]))
        else: raise vf.CheckError("history " + str(e))
    return " ".join(out)
def simreq(rng):
    m = rng.choice(MODELS); g = rng.choice(["pseudo", "sobol", "faure"]) if m in ("gbm", "heston") else "pseudo"
    return "%s %s %d %d %s %d" % (which(rng, m), g, rng.randint(0, 99), rng.choice([1, 2, 5, 12]), hx(rng.choice([1.0, rng.uniform(.1, 3)])), rng.randint(1, 4))

def judge(c, focus, st, variant="san", name=None, anew=False, exe=None, **kw):
    exe = exe or vf.build("drv_session", DIRS, variant)
    st = [{"id": "s%d" % i, "line": l if isinstance(l, str) else l[0], "alone": l if isinstance(l, str) else l[1]} for i, l in enumerate(st)]
    alone = {}
    if anew:      # every session a second time (or a variant of it), in a process of its own
        with cf.ThreadPoolExecutor(vf.NCPU) as ex:
            for r in ex.map(lambda s: vf.run_driver(exe, [(s["id"], s["alone"])], c.work, 60, tag="alone-" + s["id"], shards=1), st): alone.update(r)
    def mk(s, o):
        t = case(s, o)
        if anew: t["ev"] = t["ev"] + [{"e": "restart"}] + (case(s, alone[s["id"]])["ev"] if "ev" in alone[s["id"]] else [{"e": "crash"}])
        return t
    c.conform("SystemTrace", mk, exe, st, kind="trace", name=name, extra_cfg="CONSTANT Focus = {%s}\n" % ", ".join('"%s"' % f for f in focus), **kw)

# ------------------------------------------------------------------ C30 printing
def wild(rng): return rng.choice([lambda: rng.uniform(0, 500), lambda: 100.0, lambda: 0.1, lambda: 10 ** rng.uniform(-7, 9), lambda: float(rng.randint(0, 2000000)), lambda: 1e300, lambda: 5e-324, lambda: 0.0, lambda: 1 / 3, lambda: 123456.5, lambda: 999999.5])()
def session(rng, nops, with_price, tick=None):
    """A random session over several stocks and contracts."""
    tick = tick or rng.sample(["A", "B", "BRK.B", "^GSPC", "AA", "x_1", "LONGTICKERNAME"], 3)
    out = ["%d %s" % (len(tick), " ".join(tick))]
    pos = lambda: wild(rng) or 1.0
    y = lambda: rng.choice(["none", hx(0.0), hx(rng.uniform(0, 1)), hx(1.0), hx(0.03)])
    for t in tick: out.append("change add %s %s %s %s" % (t, hx(pos()), hx(wild(rng)), y()))
    kinds = {}
    def prints(i):
        fmt, d = rng.choice([("def", 17), ("def", 6), ("def", 3), ("def", 10), ("sci", 4), ("sci", 16)])
        out.append("print %d %s %s %d %s" % (i, rng.choice(["option", "option", "option", "payoff", "stock"]), fmt, d, rng.choice(tick)))
    for _ in range(nops):
        k = rng.random()
        if k < .25 or not kinds:
            b = rng.randint(1, 2); f = rng.choice(FACS); i = rng.randint(1, 4)
            vals = {n: hx(wild(rng) if n != "T" else rng.choice([0.0, 1.0, 0.25, rng.uniform(0, 30), 1e-7, 1 / 3])) for n in ("T", "K", "K1", "K2", "B")}
            out += ["set %d ticker string %s" % (b, rng.choice(tick)), "set %d direction dir %s" % (b, rng.choice(["up", "down"]))] + ["set %d %s double %s" % (b, n, v) for n, v in vals.items()]
            out.append("create %d %s %s %d" % (i, f, rng.choice(["call", "put"]), b)); kinds[i] = f
        elif k < .6: prints(rng.choice(list(kinds)))
        elif k < .85:
            w = rng.choice(["price", "sigma", "yield", "rate", "add"]); t = rng.choice(tick)
            if w == "price": out.append("change price %s %s" % (t, hx(rng.choice([pos(), pos(), -1.0]))))
            elif w == "sigma": out.append("change sigma %s %s" % (t, hx(rng.choice([wild(rng), wild(rng), -0.5]))))
            elif w == "yield": out.append("change yield %s %s" % (t, rng.choice([y(), y(), hx(1.5)])))
            elif w == "rate": out.append("change rate %s" % hx(rng.choice([rate(rng), -wild(rng), wild(rng)])))
            else: out.append("change add %s %s %s %s" % (t, hx(pos()), hx(wild(rng)), y()))
        elif k < .9 and len(kinds) > 1: i = rng.choice(list(kinds)); del kinds[i]; out.append("settle %d" % i)
        else: prints(rng.choice(list(kinds)))
    for i in kinds: out.append("print %d option def 17 %s print %d payoff def 17 %s" % (i, tick[0], i, tick[0]))
    for t in tick: out.append("print 1 stock def 17 %s" % t)
    return " ".join(out)
def C30(c):
    rng = c.rng
    c.model("SystemMC", mc("ask", ["european", "ddigital", "floatlb"], 3))
    st = [session(rng, c.scale(14, 20), False) for _ in range(c.scale(500, 5000))]
    st += [concrete(rng, h, lambda r, f: "calc") + " print 1 option def 17 A print 2 option def 6 A print 3 option sci 5 A" for h in histories(c, "ask", ["european", "knockout", "ddigital", "floatlb"], c.scale(250, 2000), 12)]
    judge(c, ["print"], st)

# ------------------------------------------------------------------ C31 equality of contracts
def C31(c):
    rng = c.rng
    c.model("SystemMC", mc("ask", ["european", "digital", "knockin"], 3))
    if c.thorough: c.model("SystemMC", mc("ask", ["european", "floatlb"], 4), name="SystemMC_4")
    st = []
    allcmp = lambda n: " ".join("cmp %d %d" % (i, j) for i in range(1, n + 1) for j in range(i, n + 1))
    for h in histories(c, "ask", ["european", "american", "digital"], c.scale(300, 2500), 12): st.append(concrete(rng, h, lambda r, f: "calc") + " " + allcmp(3))
    for _ in range(c.scale(500, 5000)):
        S, g = price(rng), sigma(rng); K = S; T = rng.choice([1.0, 0.5]); y = rng.choice(["none", hx(0.02), hx(0.0)])
        out = ["3 A B AA"] + ["change add %s %s %s %s" % (t, hx(rng.choice([S, S, S, nextafter(S)])), hx(rng.choice([g, g, g, nextafter(g)])), rng.choice([y, y, y, "none", hx(0.0)])) for t in ("A", "B", "AA")]
        f0 = rng.choice(FACS); n = 5
        for i in range(1, n + 1):
            d = rng.choice(["up", "up", "down"])
            out += ["set 1 ticker string %s" % rng.choice(["A", "B", "AA"]), "set 1 direction dir %s" % d, "set 1 T double %s" % hx(rng.choice([T, T, T, nextafter(T), 2 * T])),
                    "set 1 K double %s" % hx(rng.choice([K, K, K, nextafter(K), K + 1e-7])), "set 1 K1 double %s" % hx(K), "set 1 K2 double %s" % hx(rng.choice([K, K, nextafter(K), 2 * K])), "set 1 B double %s" % hx(S),
                    "create %d %s %s 1" % (i, rng.choice([f0, f0, f0, rng.choice(FACS)]), rng.choice(["call", "call", "put"]))]
        out.append(allcmp(n))
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(["A", "B", "AA"])
            out.append(rng.choice(["change price %s %s" % (t, hx(rng.choice([S, nextafter(S), S * 1.5, -1.0]))), "change sigma %s %s" % (t, hx(rng.choice([g, nextafter(g), -1.0]))), "change yield %s %s" % (t, rng.choice([y, "none", hx(0.0), hx(2.0)])),
                                   "change add %s %s %s %s" % (t, hx(S), hx(g), y), "change rate %s" % hx(rate(rng)), "settle %d" % rng.randint(1, n)]))
            out.append(allcmp(n))
        st.append(" ".join(out))
    judge(c, ["equal"], st)

# ------------------------------------------------------------------ C32 parameter objects
def C32(c):
    rng = c.rng
    c.model("SystemMC", mc("bags", ["european"], c.scale(4, 5)))
    NM = ["K", "T", "ticker", "direction", "k", "Ticker", "K1", "K2", "~", "a_very_long_parameter_name_indeed_0123456789", "a_very_long_parameter_name_indeed_0123456780", "x", "K%0", "K%0x", "%0"]
    def gets(ns, bs=(1, 2, 3)): return " ".join("get %d %s %s" % (b, n, ty) for b in bs for n in ns for ty in ("double", "int", "string", "dir"))
    st = []
    for h in histories(c, "bags", ["european"], c.scale(300, 2500), 9): st.append(concrete(rng, h) + " " + gets(["K", "x", "T"]))
    def val():
        ty = rng.choice(["double", "int", "string", "dir"])
        return ty + " " + {"double": lambda: hx(rng.choice([wild(rng), -wild(rng), 1.0, 0.0, float("nan"), float("inf"), 3.0])), "int": lambda: str(rng.choice([0, 1, 3, -1, 2147483647, -2147483648, rng.randint(-99, 99)])),
                           "string": lambda: rng.choice(["A", "1", "1.0", "up", "~", "s" * 40]), "dir": lambda: rng.choice(["up", "down"])}[ty]()
    for _ in range(c.scale(500, 5000)):
        ns = rng.sample(NM, 5); out = ["0"]
        for _ in range(rng.randint(5, 25)):
            k = rng.random()
            if k < .5: out.append("set %d %s %s" % (rng.randint(1, 3), rng.choice(ns), val()))
            elif k < .6: out.append("copy %d %d" % (rng.randint(1, 3), rng.randint(1, 3)))
            elif k < .65: out.append("new %d" % rng.randint(1, 3))
            else: out.append("get %d %s %s" % (rng.randint(1, 3), rng.choice(ns), rng.choice(["double", "int", "string", "dir"])))
        st.append(" ".join(out) + " " + gets(ns))
    for _ in range(c.scale(60, 400)):        # many names at once
        ns = ["n%d" % i for i in range(rng.randint(50, 300))]; out = ["0"]
        for n in ns: out.append("set 1 %s %s" % (n, val()))
        out.append("copy 1 2")
        for n in rng.sample(ns, 20): out.append("set 1 %s %s" % (n, val()))
        st.append(" ".join(out) + " " + gets(rng.sample(ns, 15), (1, 2)))
    judge(c, ["bags"], st)

# ------------------------------------------------------------------ C33 answers depend on contract, data and request only
def twin(rng, f, cp, v, p):
    """How to write (in bag 3) the same contract but for one term: tokens and call or put."""
    k = rng.choice(["T", "T", "cp", "ticker"] + {"ddigital": ["K1", "K2"], "floatlb": []}.get(f, ["K", "K"]) + (["B", "direction"] if f.startswith("knock") else []))
    if k == "cp": return "copy 1 3", "put" if cp == "call" else "call"
    if k == "ticker": return "copy 1 3 set 3 ticker string B", cp
    if k == "direction": return "copy 1 3 set 3 direction dir %s" % rng.choice(["up", "down"]), cp
    x = v[k] * rng.choice([.5, 1.25, 1 + 1e-7]) if rng.random() < .8 else v[k] + .01
    if k in ("K1", "K2"): x = v["K1"] * .9 if k == "K1" else v["K2"] * 1.1
    return "copy 1 3 set 3 %s double %s" % (k, hx(x)), cp
def detour(rng):
    """Ask, wander off through other data and other contracts, come back to the same data and ask again."""
    p = price(rng); q = p * rng.uniform(.6, 1.5); s = sigma(rng) or .2; s2 = rng.uniform(.05, .8); r1, r2 = rate(rng), rate(rng) + .01
    y1, y2 = rng.sample(["none", hx(0.0), hx(0.03), hx(0.07)], 2)
    if rng.random() < .3:       # the other data are almost the same
        near = lambda x: x * (1 + rng.choice([1, -1]) * 10 ** rng.uniform(-5, -1.7))
        q, s2, r2 = near(p), near(s), near(r1) if r1 else 1e-4
        if rng.random() < .5: y1, y2 = hx(.03), hx(near(.03))
    f = rng.choice(FACS + ["american", "american", "european"]); f2 = rng.choice([f] + FACS); cp = rng.choice(["call", "put"])
    b1, v = bag(rng, 1, "A", p); b2, _ = bag(rng, 2, "B", q)
    rq = [anyreq(rng, f) for _ in range(2)]
    if rng.random() < .6:       # two requests that share a model but differ in everything else
        m = rng.choice(MODELS); rq = [mcreq(rng, model=m), mcreq(rng, model=m)]
    if rng.random() < .5:       # or that differ in one thing only
        if f == "american": rq[0] = mcreq(rng, model=rng.choice(["gbm", "gbm", "heston"]))
        rq[1] = variant(rng, rq[0], f)
    home = ["change add A %s %s %s" % (hx(p), hx(s), y1), "change rate %s" % hx(r1)]
    alt = ["change price A %s" % hx(q), "change sigma A %s" % hx(s2), "change yield A %s" % y2, "change rate %s" % hx(r2)]
    out = ["3 A B C"] + home + ["change add B %s %s %s change add C %s %s %s" % (hx(q), hx(s2), y2, hx(p), hx(s), y1), b1, b2, "observe w A", "create 1 %s %s 1" % (f, cp)]
    ask1 = lambda: [ask(1, r, rng) for r in rq]
    out += ask1()
    sm = simreq(rng); out.append("sim A " + sm)
    two = []
    if rng.random() < .7:       # a neighbour: the same contract but for one term
        tok, cp2 = twin(rng, f, cp, v, p); two = [tok, "create 4 %s %s 3" % (f, cp2)] + [ask(4, r) for r in rq]
        out += two + ask1()
    for _ in range(rng.randint(1, 3)):
        rng.shuffle(alt); out += alt[:rng.randint(1, 4)]
        if rng.random() < .7: out += ask1()
        if rng.random() < .6: out += ["create 2 %s %s 2" % (f2, rng.choice(["call", "put"])), ask(2, anyreq(rng, f2), rng)]
        if rng.random() < .4: out += [ask(1, anyreq(rng, f), rng), "sim B " + simreq(rng)]
        if rng.random() < .3: out += ["change price A %s" % hx(-1.0), "print 1 option def 6 A", "cmp 1 1"]
        if rng.random() < .5: out += ["sim A " + sm]
        out += home + ask1() + ["sim A " + sm]
    # the same contract written again, and on another stock with the same data
    out += ["settle 1", "create 1 %s %s 1" % (f, cp)] + ask1()
    out += ["set 1 ticker string C", "create 3 %s %s 1" % (f, cp)] + [ask(3, r, rng) for r in rq] + ["sim C " + sm]
    # the same questions, asked the other way round by somebody who asks nothing else
    if rng.random() < .3: out = out[:1] + home + alt + [b1, "create 1 %s %s 1" % (f, cp)] + ask1() + ["settle 1", "sim A " + sm] + out[1:]
    other = ["3 A B C"] + home + [b1, "create 1 %s %s 1" % (f, cp), "sim A " + sm] + (["change add B %s %s %s" % (hx(q), hx(s2), y2)] + two if two else []) + ask1()[::-1]
    return " ".join(out), " ".join(other)
def C33(c):
    rng = c.rng
    c.model("SystemMC", mc("ask", ["european", "knockin"], c.scale(3, 4)))
    st = [detour(rng) for _ in range(c.scale(350, 3500))]
    for h in histories(c, "ask", FACS, c.scale(250, 2000), 16): st.append(concrete(rng, h))
    judge(c, ["answer"], st, anew=True)

# ------------------------------------------------------------------ C34 asking changes nothing
def C34(c):
    rng = c.rng
    c.model("SystemMC", mc("all", ["european", "knockin"], 3))
    st = []
    for h in histories(c, "all", FACS, c.scale(300, 2500), 16): st.append(concrete(rng, h))
    for _ in range(c.scale(300, 3000)):
        p, q = price(rng), price(rng); s = sigma(rng)
        out = ["3 A B ZZ", "change add A %s %s %s" % (hx(p), hx(s), rng.choice(["none", hx(0.03)])), "change add B %s %s none" % (hx(q), hx(.3)), "change rate %s" % hx(rate(rng)), "observe w A observe v B observe u ZZ"]
        b1, _ = bag(rng, 1, "A", p); b2, _ = bag(rng, 2, "B", q); out += [b1, b2]
        kinds = {}
        for i in range(1, 4): f = rng.choice(FACS); kinds[i] = f; out.append("create %d %s %s %d" % (i, f, rng.choice(["call", "put"]), rng.randint(1, 2)))
        for _ in range(rng.randint(6, 16)):
            k = rng.random(); i = rng.choice(list(kinds))
            if k < .45: out.append(ask(i, anyreq(rng, kinds[i]), rng))
            elif k < .5: out.append(ask(i, "mc default pseudo 1 52 %d std def -" % rng.choice([1, 5])))
            elif k < .6: out.append("sim %s %s" % (rng.choice(["A", "B"]), simreq(rng)))
            elif k < .7: out.append("print %d %s def 6 A" % (i, rng.choice(["option", "payoff", "stock"])))
            elif k < .8: out.append("cmp %d %d" % (i, rng.choice(list(kinds))))
            elif k < .95: out.append(rng.choice(["change price A %s" % hx(price(rng)), "change sigma B %s" % hx(.4), "change rate %s" % hx(rate(rng)), "change yield A %s" % hx(rng.choice([0.0, .05, 2.0])), "change add B %s %s none" % (hx(q), hx(.3)), "change price ZZ %s" % hx(1.0)]))
            else: out.append("unobserve %s" % rng.choice("wvu"))
        out += ["change price A %s change price B %s change rate %s" % (hx(p), hx(q), hx(.01))]
        st.append(" ".join(out))
    judge(c, ["still"], st)

# ------------------------------------------------------------------ C36 pricing in parallel
def C36(c):
    rng = c.rng
    c.model("SystemMC", mc("ask", ["european", "american"], 3))
    st = []
    for _ in range(c.scale(60, 500)):
        p, q = price(rng), price(rng)
        b1, _ = bag(rng, 1, "A", p); b2, _ = bag(rng, 2, "B", q)
        out = ["2 A B", "change add A %s %s %s" % (hx(p), hx(.25), rng.choice(["none", hx(.02)])), "change add B %s %s none" % (hx(q), hx(.3)), b1, b2]
        fs = {i: rng.choice(FACS) for i in range(1, 5)}
        for i, f in fs.items(): out.append("create %d %s %s %d" % (i, f, rng.choice(["call", "put"]), rng.randint(1, 2)))
        for _ in range(2):
            jobs = []
            for _ in range(rng.randint(2, 6)):
                i = rng.choice(list(fs)); r = anyreq(rng, fs[i]); jobs += [(i, r)] * rng.choice([1, 1, 2])
            js = "par %d %s" % (len(jobs), " ".join("%d %d %s" % (i, len(r.split()), r) for i, r in jobs))
            seq = " ".join(ask(i, r) for i, r in jobs)
            out += rng.choice([[seq, js], [js, seq], [js, js, seq]]) + ["change price A %s" % hx(price(rng))]
        st.append(" ".join(out))
    def alike(f, rs):       # the same component at work in several threads at once
        p = price(rng); b1, _ = bag(rng, 1, "A", p); b2, _ = bag(rng, 2, "B", p * 1.1)
        out = ["2 A B", "change add A %s %s %s" % (hx(p), hx(.25), hx(.02)), "change add B %s %s none" % (hx(p), hx(.3)), b1, b2, "create 1 %s call 1 create 2 %s put 2" % (f, f)]
        for _ in range(3):
            jobs = [(rng.choice([1, 2]), r) for r in rs for _ in range(2)]; rng.shuffle(jobs)
            out += ["par %d %s" % (len(jobs), " ".join("%d %d %s" % (i, len(r.split()), r) for i, r in jobs)), " ".join(ask(i, r) for i, r in jobs)]
        return " ".join(out)
    for _ in range(c.scale(1, 6)):
        for s in ("explicit", "implicit", "cn"):
            for ms in (["-"] if s == "explicit" else ["thomas", "lu", "pplu"]): st.append(alike("european", ["fdm %s %s %d 20 %s" % (s, ip, J, ms) for ip, J in (("linear", 12), ("quadratic", 17))]))
        for m in sorted(set(MODELS)):
            for f in rng.sample(["european", "knockin", "fixedlb", "geom"], 2): st.append(alike(f, ["mc %s pseudo %d 5 %d std def -" % (which(rng, m), rng.randint(0, 99), n) for n in (20, 200)]))
        for g in ("sobol", "faure"): st.append(alike("arith", ["mc gbm %s %d %d 100 std def -" % (g, rng.randint(0, 99), d) for d in (3, 7)]))
        for f in FACS: st.append(alike(f, [mcreq(rng, 100, "gbm") for _ in range(2)] + ["text"]))
        for rg in ("ls", "ridge", "lasso"):
            for k in range(3): st.append(alike("american", ["mc gbm %s 5 4 60 %s %s %s" % (rng.choice(["pseudo", "sobol"]), rng.choice(["std", "bridge"]), rg, bs) for bs in rng.sample(BASES, 2)]))
    rng.shuffle(st)
    ts, env = vf.tsan(c, vf.build("drv_session", DIRS, "tsan"), [])
    if ts: judge(c, ["answer"], st, exe=ts, env=env, repeat=False)
    judge(c, ["answer"], [l for l in st for _ in range(c.scale(4, 4))], variant="opt", name="SystemTraceMany", repeat=False)

# ------------------------------------------------------------------ C37 nothing accumulates
def round1(rng):
    """Something a user may do over and over: it ends where it began."""
    p, q = price(rng), price(rng); s = sigma(rng)
    home = ["change price A %s" % hx(p), "change yield A none", "change rate %s" % hx(.03)]
    out, kinds = [], {}
    b1, _ = bag(rng, 1, rng.choice(["A", "B"]), p); out.append(b1)
    if rng.random() < .5: out.append("observe w A observe v B")
    if rng.random() < .4: out += ["set 1 K double %s create 9 european call 1" % hx(-1.0), "set 1 K double %s" % hx(p)]
    if rng.random() < .3: out += ["set 2 ticker string NOPE create 9 american put 2 set 2 ticker string B"]
    for i in range(1, rng.randint(2, 4)): f = rng.choice(FACS); kinds[i] = f; out.append("create %d %s %s 1" % (i, f, rng.choice(["call", "put"])))
    for _ in range(rng.randint(1, 6)):
        k = rng.random(); i = rng.choice(list(kinds))
        if k < .15:
            m = rng.choice(MODELS); g = rng.choice(["pseudo", "pseudo", "sobol", "faure"]) if m == "gbm" else "pseudo"; w = (which(rng, m), g, rng.randint(1, 9), rng.randint(1, 4))
            r = rng.choice(["mc %s %s %d %d 12" % w, "path %s %s %d %d 1" % w, "fdm"])
            out.append("toil 6 %d %s" % (len(r.split()), r))
        elif k < .4:
            r = anyreq(rng, kinds[i])
            out.append(ask(i, r, rng))
        elif k < .5: out.append("sim %s %s" % (rng.choice(["A", "B"]), simreq(rng)))
        elif k < .6: out.append("print %d option def 6 A" % i)
        elif k < .7: out.append("cmp %d %d" % (i, rng.choice(list(kinds))))
        else: out.append(rng.choice(["change price A %s" % hx(q), "change price A %s" % hx(-1.0), "change sigma B %s" % hx(.3), "change yield A %s" % hx(.02), "change rate %s" % hx(.07), "change add B %s %s none" % (hx(q), hx(.3)), "change price NOPE %s" % hx(1.0)]))
    out += home
    if "observe" in " ".join(out): out.append("unobserve w unobserve v")
    # what stays alive is renewed while the rest is still there, in some order
    stay = rng.sample(["unobserve z observe z A", "settle 7 create 7 european call 2"], rng.randint(0, 2)); gone = ["settle %d" % i for i in kinds]
    k = rng.randint(0, len(gone)); rng.shuffle(gone)
    return " ".join(out + gone[:k] + stay + gone[k:])
def C37(c):
    rng = c.rng
    c.model("SystemMC", mc("all", ["european"], 3))
    st = []
    for _ in range(c.scale(250, 2500)):
        r = round1(rng); n = c.scale(300, 1500)
        st.append("2 A B change add A %s %s none change add B %s %s none set 1 x int 1 set 2 ticker string B set 2 T double %s set 2 K double %s observe z A create 7 european call 2 set 3 ticker string A set 3 T double %s set 3 K double %s set 3 K1 double %s set 3 K2 double %s set 3 B double %s set 3 direction dir up create 6 %s put 3 mark %s soak %d %d %s" % (hx(100.0), hx(.2), hx(50.0), hx(.3), hx(1.0), hx(9.0), hx(1.0), hx(100.0), hx(90.0), hx(110.0), hx(120.0), rng.choice(FACS + ["european"] * 3), r, n, len(r.split()), r))
    judge(c, ["held"], st, variant="opt")

# ------------------------------------------------------------------ C35 closed formulas
CFMC = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
def closed(rng, gen, model, f, n):
    S = rng.choice([100.0, rng.uniform(1, 300)]); sig = rng.uniform(.1, .6); T = rng.uniform(.2, 2.0); r = rng.choice([.05, 0.0, -.01, rng.uniform(-.03, .12)]); y = rng.choice(["none", hx(rng.uniform(0, .1))])
    while sig * math.sqrt(T) > .6: T /= 2
    sd = sig * math.sqrt(T); K = S * math.exp(rng.uniform(-1, 1) * sd); cp = rng.choice(["call", "put"])
    steps = 1 if f in ("arith", "fixedlb", "knockin", "knockout", "american") else rng.choice([1, 2, 3, 4] if gen != "pseudo" else [1, 2, 5, 12])
    K2 = K * math.exp(rng.uniform(.5, 1.5) * sd); d = rng.choice(["up", "down"]); B = S * math.exp(rng.uniform(-1, 1) * sd)
    seed = rng.randint(1, 10000)
    line = " ".join(["1 A", "change add A %s %s %s" % (hx(S), hx(sig), y), "change rate %s" % hx(r), "set 1 ticker string A set 1 T double %s set 1 K double %s set 1 K1 double %s set 1 K2 double %s set 1 B double %s set 1 direction dir %s" % (hx(T), hx(K), hx(K), hx(K2), hx(B), d),
                     "create 1 %s %s 1" % (f, cp), ask(1, "mc %s %s %d %d %d std def -" % (model, gen, seed if gen == "pseudo" else 1, steps, n))])
    if rng.random() < .7:       # another contract, alike but for something, was priced before in the same process
        k = rng.randint(0, 4); a = [S, sig, T, K, r]
        if k < 4: a[k] *= rng.choice([.5, 2.0, 1.01])
        if k == 4: a[4] += .03
        t = cp if rng.random() < .5 else "put" if cp == "call" else "call"
        line = " ".join(["1 A", "change add A %s %s %s" % (hx(a[0]), hx(a[1]), y), "change rate %s" % hx(a[4]), "set 2 ticker string A set 2 T double %s set 2 K double %s set 2 K1 double %s set 2 K2 double %s set 2 B double %s set 2 direction dir %s" % (hx(a[2]), hx(a[3]), hx(a[3]), hx(K2), hx(B), d),
                         "create 2 %s %s 2" % (f, t), ask(2, "mc %s %s %d %d 50 std def -" % (model, gen, seed if gen == "pseudo" else 1, steps))]) + line[len("1 A"):]
    tol = 6 / math.sqrt(n) if gen == "pseudo" else QTOL(gen, steps, n)
    x = {"model": model, "steps": steps}
    if model == "merton": x.update(lam=hx(1.5), muJ=hx(-.1), sJ=hx(.2), terms=int(1.5 * T + 12 * math.sqrt(1.5 * T) + 15))
    return line, {"o": {"f": f, "cp": cp, "K": hx(K), "K1": hx(K), "K2": hx(K2), "B": hx(B), "dir": d, "T": hx(T)}, "m": {"S": hx(S), "sig": hx(sig), "c": y, "r": hx(r)}, "x": x, "tol": hx(tol)}
def QTOL(gen, steps, n): return 40 * steps / n ** .8
def C35(c):
    rng = c.rng
    c.model("ClosedFormMC", CFMC)
    st = []
    P = c.scale(200000, 2000000); Q = c.scale(20000, 100000)
    for rep in range(c.scale(5, 20)):
        for f in ("european", "european", "digital", "ddigital", "geom", "arith", "fixedlb", "knockin", "knockout", "american"):
            n = (P if f in ("european", "digital", "ddigital") else P // 4) if f != "american" else 4000
            st.append(closed(rng, "pseudo", "gbm", f, n))
            if f in ("european", "digital", "ddigital"): st.append(closed(rng, "pseudo", "merton", f, n))
            if f != "american":
                for g in ("sobol", "faure"): st.append(closed(rng, g, "gbm", f, Q))
    st = [{"id": "s%d" % i, "line": l, "x": x} for i, (l, x) in enumerate(st)]
    exe = vf.build("drv_session", DIRS, "opt")
    def mk(s, o):
        e = o["ev"][-1]
        if e["e"] != "price": return dict(s["x"], id=s["id"], st=str(e.get("st")), v="nan")
        return dict(s["x"], id=s["id"], st=e["st"], v=e["v"])
    c.conform("ClosedFormJudge", mk, exe, st, case_timeout=60)
