import math
import vf
from vf import hx, nextafter
DIRS = ["numerical_analysis"]
def vals(xs): return "%d %s" % (len(xs), " ".join(hx(float(x)) for x in xs))
def mat(A): return "%d %d %s" % (len(A), len(A[0]) if A else 0, " ".join(hx(float(x)) for r in A for x in r))
def model(c, part, ent='"0", "1", "-2"'):
    inv = {"sys": "SysLaw", "reg": "RegLaw", "poly": "PolyLaw PolyOne", "tab": "TabLaw"}[part]
    c.model("NumericsMC", 'SPECIFICATION Spec\nCONSTANTS\n Ent = {%s}\n Part = "%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (ent, part, inv), name="NumericsMC_" + part)
def run(c, st, **kw):
    exe = vf.build("drv_num", DIRS)
    st = [{"id": "c%d" % i, "line": l} for i, l in enumerate(st)]
    c.conform("NumericsJudge", lambda s, o: dict(o["c"], id=s["id"]), exe, st, **kw)

def lanes(c, fams):
    """Lays out families of cases so that the cases of a family follow each other in one process (run_driver deals
    the cases out in turn to vf.NCPU processes)."""
    out, n = [], vf.NCPU
    for k in range(0, len(fams) - len(fams) % n, n):
        for row in zip(*fams[k:k + n]): out += row
    return out
def near(rng, x): return x * (1 + rng.choice([1, -1]) * 10 ** rng.uniform(-9, -2)) if x else 1e-6
def exactly(A, x):
    from fractions import Fraction as F
    return [float(sum(F(p) * F(q) for p, q in zip(r, x))) for r in A]

def dyadic(rng, s=1.0, bits=12): return rng.randint(-(1 << bits), 1 << bits) / (1 << bits) * s
def system(rng, which, n):
    """A well-conditioned system with a known solution: diagonally dominant, permuted for the pivoting solvers."""
    tri = which == "thomas" or rng.random() < 0.4
    dens = rng.choice([0.1, 0.3, 1.0])
    A = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and (abs(i - j) == 1 if tri else rng.random() < dens): A[i][j] = dyadic(rng)
        if tri and rng.random() < 0.1 and i + 1 < n: A[i][i + 1] = 0.0
        A[i][i] = rng.choice([-1, 1]) * (sum(abs(x) for x in A[i]) * rng.choice([1.0, 1.25, 2.0]) + rng.choice([0.125, 0.5, 1.0]))
    x = [dyadic(rng, rng.choice([1.0, 8.0])) for _ in range(n)]
    if all(v == 0 for v in x): x[0] = 1.0
    sa = 2.0 ** rng.choice([0, 0, -30, 30, -3, 7] + ([-50, 50] if which == "thomas" else [])); sx = 2.0 ** rng.choice([0, 0, 20, -20, -70, 70])
    sr = [2.0 ** rng.choice([0, 0, -20, 20]) for _ in A] if which == "thomas" and rng.random() < 0.3 else [1.0] * n      # rows on scales of their own
    A = [[v * sa * f for v in r] for r, f in zip(A, sr)]; x = [v * sx for v in x]
    if which != "thomas" and rng.random() < 0.6: rng.shuffle(A)
    return A, exactly(A, x), x
def C26(c):
    rng = c.rng
    model(c, "sys", '"0", "1", "-2", "1/3"' if not c.thorough else '"0", "1", "-2", "1/3", "5"')
    fams = []
    for k in range(c.scale(64, 640)):                 # one after the other: the same size, pattern, matrix or right-hand side, and slightly changed ones
        which = ("lu", "plu", "thomas", "lu")[k % 4]; n = rng.choice([2, 3, 4, 6, 9, 15]); A, b, x = system(rng, which, n); fam = []
        while len(fam) < 6:
            fam.append("solve %s triplets solve %s %s %s" % (which, mat(A), vals(b), vals(x)))
            how = rng.randint(0, 3)
            if how == 0: A, b, x = system(rng, which, n)
            elif how == 1: x = [dyadic(rng, 8.0) or 1.0 for _ in x]
            elif how == 2: A = [[near(rng, v) if v and rng.random() < .3 else v for v in r] for r in A]
            elif which != "thomas": rng.shuffle(A)
            b = exactly(A, x)
        fams.append(fam)
    st = lanes(c, fams)
    for which in ("lu", "plu", "thomas"):
        for _ in range(c.scale(220, 2500)):
            n = rng.choice([2, 2, 3, 4, 5, 8, 13, rng.randint(2, 30)]) if which == "thomas" else rng.choice([1, 2, 3, 4, 5, 8, 13, rng.randint(1, 30)])
            A, b, x = system(rng, which, n)
            st.append("solve %s %s solve %s %s %s" % (which, rng.choice(["triplets", "zeros", "insert"]), mat(A), vals(b), vals(x)))
        for _ in range(c.scale(4, 30)):
            n = rng.choice([50, 60, 75]); A, b, x = system(rng, which, n); st.append("solve %s triplets solve %s %s %s" % (which, mat(A), vals(b), vals(x)))
        for n in (100, 128, 200, 257) + ((500, 1000) if which == "thomas" or c.thorough else ()):
            A, b, x = system(rng, which, n); st.append("solve %s triplets solve %s %s %s" % (which, mat(A), vals(b), vals(x)))
    for _ in range(c.scale(80, 600)):                  # structurally or numerically singular
        n = rng.randint(2, 8); A = [[float(rng.randint(-4, 4)) for _ in range(n)] for _ in range(n)]; how = rng.randint(0, 2)
        k = rng.randrange(n)
        if how == 0: A[k] = [0.0] * n
        elif how == 1:
            for r in A: r[k] = 0.0
        else: A[k] = [2.0 * v for v in A[(k + 1) % n]]; A = A if n == 2 else [[(v if i in (k, (k + 1) % n) else (1.0 if i == j else 0.0)) for j, v in enumerate(r)] for i, r in enumerate(A)]
        if how == 2 and n > 2 and all(v == 0 for v in A[k]): pass
        st.append("solve lu %s refuse %s %s %s" % (rng.choice(["triplets", "zeros", "insert"]), mat(A), vals([1.0] * n), vals([0.0] * n)))
    for v in (1.0, -3.0, 0.0): st.append("solve thomas zeros refuse %s %s %s" % (mat([[v]]), vals([1.0]), vals([0.0])))
    st.append("solve thomas zeros refuse 0 0 %s %s" % (vals([]), vals([])))
    run(c, st)

def C27(c):
    rng = c.rng
    model(c, "tab", '"0", "1", "-2", "1/3"')
    fams = []
    for _ in range(c.scale(48, 480)):
        how = rng.choice(["linear", "quadratic"]); n = rng.choice([3, 5, 9, 33]); x0 = rng.uniform(-5, 5); h = 10 ** rng.uniform(-2, 1); fam = []
        uni = rng.random() < .5; xs = [x0 + (i if uni else i + rng.uniform(-.2, .2)) * h for i in range(n)]; ys = [rng.uniform(-5, 5) for _ in xs]
        while len(fam) < 6:
            q = ([q[-1]] if fam else []) + [rng.uniform(xs[0] - h, xs[-1] + h) for _ in range(8)] + rng.sample(xs, 2) + [rng.uniform(xs[n // 2 - 1], xs[n // 2 + 1])]     # (the last question is the first one to the next grid)
            fam.append("interp %s %s %s %s" % (how, vals(xs), vals(ys), vals(q)))
            k = rng.randint(0, 4)
            if k == 0: ys = [rng.uniform(-5, 5) for _ in ys]
            elif k == 1: ys = [near(rng, y) for y in ys]
            elif k == 2: j = rng.randrange(n); ys[j] += rng.choice([1e-6, 1.0])
            elif k == 3: d = rng.choice([h / 7, h * 1.5, 100.0]); xs = [x + d for x in xs]
            else: g = rng.choice([2.0, 1.01, 1 + 1e-5]); xs = [xs[0] + (x - xs[0]) * g for x in xs]
        fams.append(fam)
    st = lanes(c, fams)
    for it in range(c.scale(500, 6000)):
        how = rng.choice(["linear", "quadratic"]); n = rng.choice([2, 3, 4, 5, 6, 9, 17, rng.randint(2, 40)]) if it % 50 else rng.choice([100, 257, 500])
        x = rng.choice([0.0, rng.uniform(-100, 100), -3.0]); h = 10 ** rng.uniform(-2, 2); x, h = (x, h) if rng.random() < 0.7 else (lambda k: (x * k, h * k))(10.0 ** rng.randint(-9, 9)); uni = rng.random() < 0.4; xs = []
        for _ in range(n): xs.append(x); x += h * (1.0 if uni else rng.uniform(0.2, 3))
        f = rng.choice([lambda t: rng.uniform(-5, 5), lambda t: 3 - 2 * t, lambda t: 1 + t * (0.5 - t), lambda t: max(t - xs[n // 2], 0.0), lambda t: rng.choice([0.0, 1e6, -1e-6]), lambda t: rng.uniform(-1, 1) * 1e-9, lambda t: rng.uniform(-1, 1) * 1e12])
        ys = [f(t) for t in xs]
        if not any(ys): ys[0] = 1.0
        q = list(xs) + [xs[0] - h, xs[-1] + h, nextafter(xs[0], False), nextafter(xs[0]), nextafter(xs[-1]), nextafter(xs[-1], False), -1e9, 1e9]
        for k in range(n - 1): q += [xs[k] + (xs[k + 1] - xs[k]) * rng.random(), (xs[k] + xs[k + 1]) / 2]
        for t in rng.sample(xs, min(3, n)): q += [nextafter(t), nextafter(t, False)]
        st.append("interp %s %s %s %s" % (how, vals(xs), vals(ys), vals(q)))
    run(c, st)

def C28(c):
    rng = c.rng
    model(c, "reg", '"0", "1", "-2"')
    fams = []
    for _ in range(c.scale(48, 480)):
        m = rng.randint(1, 4); n = m + rng.randint(0, 6); lam = rng.choice([0.0, 0.1, 1.0, 0.5]); fam = []
        A = [[rng.uniform(-1, 1) * 10 for _ in range(m)] for _ in range(n)]
        for j in range(m): A[j][j] += 25.0 * (1 + j % 2)
        y = [rng.uniform(-10, 10) for _ in range(n)]
        while len(fam) < 6:
            fam.append("reg %s %s %s full 1e-8" % (mat(A), vals(y), hx(lam)))
            k = rng.randint(0, 4)
            if k == 0: y = [rng.uniform(-10, 10) for _ in y]
            elif k == 1: lam = rng.choice([0.0, 0.1, 1.0, 0.5, near(rng, lam)])
            elif k == 2: A = [[near(rng, v) for v in r] for r in A]
            elif k == 3: A = [[v * 2 for v in r] for r in A]
            else: A[0], A[-1] = A[-1], A[0]
        fams.append(fam)
    st = lanes(c, fams)
    for it in range(c.scale(700, 8000)):
        kind = rng.choice(["full", "full", "full", "deficient", "under", "poly"]); n, m = rng.randint(1, 12), rng.randint(1, 5); tol = "1e-8"; full = "full"
        if kind == "full":
            n = max(n, m + rng.choice([0, 1, 3]))
            if it % 60 == 0: n, m = rng.choice([60, 150, 300]), rng.choice([1, 4, 8])
            A = [[rng.uniform(-1, 1) * 10 for _ in range(m)] for _ in range(n)]
            for j in range(m): A[j][j] += 25.0 * (1 + j % 2)
        elif kind == "deficient":
            r = rng.randint(1, 2); m = rng.randint(r + 1, 5); n = rng.randint(1, 9)
            B = [[rng.randint(-3, 3) for _ in range(r)] for _ in range(n)]; Cc = [[rng.randint(-3, 3) for _ in range(m)] for _ in range(r)]
            A = [[float(sum(B[i][k] * Cc[k][j] for k in range(r))) for j in range(m)] for i in range(n)]; full = "deficient"
        elif kind == "under":
            m = rng.randint(2, 6); n = rng.randint(1, m - 1); A = [[float(rng.randint(-5, 5)) for _ in range(m)] for _ in range(n)]
            for i in range(n): A[i][i] += 12.0
            full = "deficient"
        else:
            m = rng.randint(1, 4); n = m + rng.randint(1, 8); s = rng.choice([1.0, 10.0, 100.0]); xs = [s * rng.uniform(0.5, 1.5) for _ in range(n)]; A = [[x ** k for k in range(m)] for x in xs]; tol = "1e-6"; full = "deficient" if m > 2 else "full"
        y = [rng.choice([rng.uniform(-10, 10), 0.0, float(rng.randint(-5, 5))]) for _ in range(len(A))]
        if not any(y): y[0] = 1.0
        lam = rng.choice([0.0, 0.1, 1.0, 10 ** rng.uniform(-3, 3), 0.5])
        if full == "deficient" and kind != "poly" and lam == 0.0: lam = 0.25
        if kind == "poly" and lam and rng.random() < 0.5: lam = 0.0
        st.append("reg %s %s %s %s %s" % (mat(A), vals(y), hx(lam), full, tol))
    for lam in (-1.0, -5e-324, -1e-9): st.append("reg %s %s %s full 1e-8" % (mat([[1.0, 0.0], [0.0, 2.0]]), vals([1.0, 3.0]), hx(lam)))
    for lam in (0.0, -0.0, 1.0, 3.0, 1e6): st.append("reg %s %s %s full 1e-8" % (mat([[1.0, 0.0], [0.0, 2.0]]), vals([1.0, -6.0]), hx(abs(lam))))
    run(c, st)

def C29(c):
    rng = c.rng
    model(c, "poly")
    fams = []
    for _ in range(c.scale(32, 320)):
        fam = []; k = rng.choice([1, 3, 8]); xs = [rng.uniform(-1, 1) for _ in range(k)]; n = rng.randint(2, 8); f = rng.choice(["monomial", "chebyshev", "legendre", "laguerre"])
        while len(fam) < 6:
            fam.append("basis %s %d %s" % (f, n, vals(xs)))
            w = rng.randint(0, 3)
            if w == 0: n = rng.randint(2, 8)
            elif w == 1: xs = [near(rng, x) for x in xs]
            elif w == 2: xs = [rng.uniform(-1, 1) for _ in xs]
            else: f = rng.choice(["monomial", "chebyshev", "legendre", "laguerre"])
        fams.append(fam)
    st = lanes(c, fams)
    for fam in ("monomial", "chebyshev", "legendre", "laguerre"):
        st.append("basis %s 0 %s" % (fam, vals([1.0])))
        for n in (16, 20, 25, 30): st.append("basis %s %d %s" % (fam, n, vals([0.0, 1.0, -1.0] + [rng.uniform(-1, 1) for _ in range(4)])))
        for n in range(1, 14):
            for _ in range(c.scale(9, 80)):
                k = rng.choice([1, 1, 2, 5, 20]); s = rng.choice([1.0, 1.0, 3.0, 0.1, 100.0])
                if n == 13 and k == 20: k = 300
                st.append("basis %s %d %s" % (fam, n, vals([rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(0, 2)]) * s for _ in range(k)])))
    run(c, st)
