import json, math, re
import vf
from vf import hx, nextafter

DIRS = ["market_data", "payoff", "option"]
MC = """SPECIFICATION Spec
CONSTANTS
 Mode = "%s"
 Facs = {%s}
 MaxOps = %d
 Emit = %s
INVARIANTS OptsWellFormed PoolValid Equivalence InvEq InvNeg InvPar InvPart Complete
CHECK_DEADLOCK FALSE
"""
FACS = ["european", "digital", "ddigital", "american", "arith", "geom", "knockin", "knockout", "floatlb", "fixedlb"]
NEEDS = {f: ["ticker", "T", "K"] for f in FACS}
NEEDS["ddigital"] = ["ticker", "T", "K1", "K2"]; NEEDS["floatlb"] = ["ticker", "T"]
NEEDS["knockin"] = NEEDS["knockout"] = ["ticker", "T", "K", "B", "direction"]
def mc(mode, facs, ops, emit=False): return MC % (mode, ", ".join('"%s"' % f for f in facs), ops, "TRUE" if emit else "FALSE")

def histories(c, mode, n, ops):
    t = vf.tlc("ContractMC", mc(mode, FACS, ops, True), c.work, name="ContractGen" + mode, workers=1,
               args=["-simulate", "num=%d" % n, "-depth", str(ops + 2), "-seed", str(c.seed + ops)], timeout=300)
    hs, seen = [], set()
    for l in t.prints:
        m = re.match(r'<<"HIST", "(.*)">>$', l)
        if m and m.group(1) not in seen:
            seen.add(m.group(1)); hs.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if len(hs) < n // 20: raise vf.CheckError("TLC generated only %d histories: %s" % (len(hs), t.out[-1500:]))
    c.rng.shuffle(hs)
    return hs[:n]

def strike(rng): return rng.choice([lambda: rng.uniform(1, 300), lambda: 100.0, lambda: 0.0, lambda: 10 ** rng.uniform(-6, 7), lambda: float(rng.randint(0, 500)), lambda: 1e300, lambda: 5e-324, lambda: 0.1])()
def negative(rng): return rng.choice([-1.0, -1e-12, -5e-324, -100.0, -1e300, -rng.uniform(0, 100)])
def mat(rng): return rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 30), 1e-9, 50.0])
def around(rng, ks):
    """Prices at, just beside, and away from the levels that matter."""
    r = []
    for k in ks:
        r += [k, nextafter(k), nextafter(k, False), k * (1 + rng.uniform(0, 1)), k * rng.uniform(0, 1), k + rng.uniform(0, 50)]
    r += [0.0, rng.uniform(0, 400), 10 ** rng.uniform(-8, 12), 100.0]
    return [x for x in r if math.isfinite(x) and x >= 0 and abs(x) < 1.7e308] or [1.0]

def val(rng, n, ty, cls):
    """A parameter as driver tokens. cls: "ok", "neg" or free text for odd types."""
    if ty == "string": return "string %s" % cls
    if ty == "dir": return "dir %s" % cls
    if ty == "int": return "int %d" % rng.randint(-3, 200)
    return "double %s" % hx(cls)

def create(rng, i, f, cp, vals):
    lv = [v for v in vals.values() if isinstance(v, float)]
    pr = around(rng, lv[:4])
    rng.shuffle(pr)
    return "create %d %s %s %d %s" % (i, f, cp, min(14, len(pr)), " ".join(hx(x) for x in pr[:14]))

def one_wrong(rng, f, cp, wrong, how, extra):
    """A parameter object for f in which at most one parameter is wrong."""
    out, vals = ["ticker A", "ticker B2"], {}
    names = list(NEEDS[f]) + ([x for x in ("K", "K1", "K2", "B", "direction", "foo") if x not in NEEDS[f]] if extra else [])
    rng.shuffle(names)
    for n in names:
        if n == "ticker": tok = "string %s" % rng.choice(["A", "B2"])
        elif n == "direction": tok = "dir %s" % rng.choice(["up", "down"])
        elif n == "foo": tok = "int 3"
        elif n == "T": tok = "double %s" % hx(mat(rng))
        else: vals[n] = strike(rng); tok = "double %s" % hx(vals[n])
        if n == wrong:
            if how == "missing": continue
            if how == "int": tok = "int %d" % rng.randint(0, 100)
            if how == "string": tok = "string %s" % ("ZZZ" if n == "ticker" else "A")
            if how == "dir": tok = "dir up"
            if how == "double": tok = "double %s" % hx(5.0)
            if how == "neg": tok = "double %s" % hx(negative(rng))
        out.append("set %s %s" % (n, tok))
    out.append(create(rng, 1, f, cp, vals))
    out.append("recheck 1")
    return " ".join(out)

def C06(c):
    rng = c.rng
    c.model("ContractMC", mc("factory", ["european", "ddigital", "floatlb"], c.scale(3, 4)), name="ContractMC_a")
    c.model("ContractMC", mc("factory", ["knockin", "knockout"], c.scale(3, 4)), name="ContractMC_b")
    if c.thorough: c.model("ContractMC", mc("factory", FACS, 3), name="ContractMC_c")
    st = []
    # systematic: every factory, call and put, every parameter wrong in every way
    for f in FACS:
        for cp in ("call", "put"):
            for rep in range(c.scale(2, 12)):
                st.append(one_wrong(rng, f, cp, None, None, rep % 2 == 1))
                for n in NEEDS[f]:
                    hows = ["missing", "int", "string"]
                    if n == "direction": hows += ["double"]
                    elif n == "ticker": hows += ["double", "dir"]
                    else: hows += ["dir"]
                    if n in ("T", "K", "K1", "K2"): hows += ["neg"]
                    for how in hows: st.append(one_wrong(rng, f, cp, n, how, rep % 2 == 1))
    # histories generated by TLC, abstract values made concrete
    for h in histories(c, "factory", c.scale(900, 6000), 10):
        out, vals, conc = [], {}, {}
        for e in h:
            if e["e"] == "start":
                out += ["ticker A"]
                for n in ("ticker", "T", "K", "K1", "K2", "B", "direction"):
                    if n == "ticker": out.append("set ticker string A")
                    elif n == "direction": out.append("set direction dir up")
                    else:
                        vals[n] = mat(rng) if n == "T" else strike(rng)
                        out.append("set %s double %s" % (n, hx(vals[n])))
            elif e["e"] == "set":
                if e["ty"] == "double" and e["n"] not in ("ticker", "direction"):
                    x = negative(rng) if e["v"] == "-1" else 0.0 if e["v"] == "0" else (mat(rng) if e["n"] == "T" else strike(rng))
                    vals[e["n"]] = x; out.append("set %s double %s" % (e["n"], hx(x)))
                elif e["ty"] == "double": out.append("set %s double %s" % (e["n"], hx(1.0)))
                else: out.append("set %s %s %s" % (e["n"], e["ty"], e["v"]))
            elif e["e"] == "create": out.append(create(rng, e["i"], e["f"], e["cp"], vals))
            elif e["e"] == "dropopt": out.append("dropopt %d" % e["i"])
            elif e["e"] == "ticker": out.append("ticker A")
            elif e["e"] == "clear": out.append("clear"); vals = {}
        out += ["recheck 1 recheck 2"]
        st.append(" ".join(out))
    exe = vf.build("drv_contract", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("ContractTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace")

KINDS = [("vanilla", "call"), ("vanilla", "put"), ("digital", "call"), ("digital", "put"), ("ddigital", "both"), ("floating", "call"), ("floating", "put")]
def C07(c):
    rng = c.rng
    c.model("ContractMC", mc("payoff", FACS, c.scale(3, 3)))
    st = []
    for rep in range(c.scale(220, 2500)):
        for kind, cp in KINDS:
            k1 = strike(rng); k2 = rng.choice([k1, k1 + rng.uniform(0, 100), nextafter(k1), strike(rng)])
            if rng.random() < 0.06: k1 = negative(rng)
            if rng.random() < 0.06: k2 = negative(rng)
            out = ["make 1 %s %s %s %s" % (kind, cp, hx(k1), hx(k2))]
            pr = around(rng, [abs(k1), abs(k2)]) + [-rng.uniform(0, 5)]
            for S in pr: out.append("eval 1 %s" % hx(S))
            for _ in range(4):
                S = rng.choice(pr); m = rng.choice(pr + [S, nextafter(S)]); out.append("eval2 1 %s %s" % (hx(S), hx(m)))
            st.append(" ".join(out))
    for f in FACS:                    # through the option
        for cp in ("call", "put"):
            for _ in range(c.scale(4, 40)): st.append(one_wrong(rng, f, cp, None, None, False))
    exe = vf.build("drv_contract", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("ContractTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace")

def C08(c):
    rng = c.rng
    c.model("ContractMC", mc("payoff", FACS, c.scale(3, 4)))
    st = []
    def pays(i, ks):
        kind, cp = rng.choice(KINDS); k1 = rng.choice(ks); k2 = rng.choice(ks)
        return "make %d %s %s %s %s" % (i, kind, cp, hx(k1), hx(k2))
    for h in histories(c, "payoff", c.scale(700, 5000), 8):
        base = strike(rng); m = {"-1": negative(rng), "1": base, "2": rng.choice([nextafter(base), base + 1, base * 2 + 1]), "3": base * 3 + 2}
        out = []
        def chk():
            for i in (1, 2, 3):
                for j in (1, 2, 3): out.append("cmp %d %d" % (i, j))
            for i in (1, 2, 3):
                S = rng.choice(around(rng, [base])); out.append("eval %d %s eval2 %d %s %s" % (i, hx(S), i, hx(S), hx(base)))
        for e in h:
            if e["e"] == "make": p = e["p"]; out.append("make %d %s %s %s %s" % (e["i"], p["kind"], p["cp"], hx(m.get(str(p["k1"]), 0.0)), hx(m.get(str(p["k2"]), 0.0))))
            elif e["e"] == "clone": out.append("clone %d %d" % (e["i"], e["j"]))
            else: out.append("destroy %d" % e["i"])
            chk()
        st.append(" ".join(out))
    for _ in range(c.scale(400, 4000)):
        base = strike(rng); ks = [base, nextafter(base), abs(nextafter(base, False)), base + 1e-9 * base, 0.0, -0.0, strike(rng), abs(base * (1 + 1e-15))]
        out = [pays(i, ks) for i in range(1, 9)]
        out += ["cmp %d %d" % (i, j) for i in range(1, 9) for j in range(1, 9)]
        out += ["ticker A set ticker string A set T double %s set K double %s" % (hx(1.0), hx(base)), create(rng, 1, rng.choice(["european", "digital", "american", "floatlb", "knockin"]), rng.choice(["call", "put"]), {"K": base}),
                "cloneof 1 9 dropopt 1", "cmp 9 1 cmp 9 2 cmp 9 9 eval 9 %s eval2 9 %s %s" % (hx(base), hx(base + 1), hx(base))]
        for i in range(1, 4): out += ["clone %d %d" % (i, i + 20), "destroy %d" % i, "cmp %d %d" % (i + 20, i + 20), "cmp %d %d" % (i + 20, i + 3), "eval %d %s" % (i + 20, hx(base)), "eval2 %d %s %s" % (i + 20, hx(base), hx(base * 2))]
        st.append(" ".join(out))
    for _ in range(c.scale(300, 3000)):       # stock records
        S = abs(strike(rng)) or 1.0; g = rng.choice([0.0, 0.2, rng.uniform(0, 2)])
        out = []
        for i in range(1, 7):
            y = rng.choice(["none", "none", hx(0.0), hx(-0.0), hx(0.03), hx(1.0), hx(rng.uniform(0, 1)), hx(nextafter(0.03))])
            s = rng.choice([S, S, S, nextafter(S), S + 1]); v = rng.choice([g, g, g, nextafter(g), g + 0.1])
            if not math.isfinite(s): s = S
            out.append("rec %d %s %s %s" % (i, hx(s), hx(v), y))
        out += ["cmprec %d %d" % (i, j) for i in range(1, 7) for j in range(1, 7)]
        st.append(" ".join(out))
    exe = vf.build("drv_contract", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("ContractTrace", lambda s, o: {"id": s["id"], "ev": o["ev"]}, exe, st, kind="trace")
