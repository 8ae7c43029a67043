--------------------------------- MODULE FDM ---------------------------------
(***************************************************************************)
(* One-factor finite differences: u_t = D u_xx + C u_x + R u - f on        *)
(* [0,xDom] x [0,tDom], u = initial condition at t = 0 and given boundary  *)
(* values.  A step of the theta scheme (theta = 0 explicit, 1 implicit,    *)
(* 1/2 Crank-Nicolson) maps the grid at t0 to the grid at t1 = t0 + dt:    *)
(*   (new-old)/dt = theta L(t1) new + (1-theta) L(t0) old                  *)
(*                  - theta f(t1) - (1-theta) f(t0)                        *)
(* with central differences L, boundary values at t1 at both ends.         *)
(* A problem p is a record of the coefficients' coefficients:              *)
(*   D, C, R, f : <<a, at, ax, atx>> for a + at t + ax x + atx t x         *)
(*                and, for f, a fifth: att t^2                             *)
(*   bl, br     : <<a, at, att, ax>>  for a + at t + att t^2 + ax x        *)
(*   ic         : <<a, ax, axx, w, K>> for a + ax x + axx x^2 + w (x-K)+   *)
(***************************************************************************)
EXTENDS Lin, Interpol
RD(x) == RRound(x, 240)
Aff(a, t, x)  == RAdd(RAdd(a[1], RMul(a[2], t)), RMul(x, RAdd(a[3], RMul(a[4], t))))
Src(a, t, x)  == IF Len(a) = 4 THEN Aff(a, t, x) ELSE RAdd(Aff(a, t, x), RMul(a[5], RMul(t, t)))
Bnd(a, t, x)  == RAdd(RAdd(a[1], RMul(t, RAdd(a[2], RMul(a[3], t)))), RMul(a[4], x))
Ini(a, x)     == RAdd(RAdd(a[1], RMul(x, RAdd(a[2], RMul(a[3], x)))), RMul(a[4], RMax(0, RSub(x, a[5]))))
Theta(s)      == CASE s = "explicit" -> "0" [] s = "implicit" -> "1" [] s = "cn" -> "1/2"
Dx(p)         == RDiv(p.xDom, p.J - 1)
Dt(p)         == RDiv(p.tDom, p.N - 1)
X(p, j)       == RMul(j - 1, Dx(p))                 \* grid points j = 1..J
Tm(p, n)      == RMul(n, Dt(p))
\* the three coefficients of L at (t, x_j)
Lo(p, t, j)   == LET h == Dx(p) IN RSub(RDiv(Aff(p.D, t, X(p, j)), RMul(h, h)), RDiv(Aff(p.C, t, X(p, j)), RMul(2, h)))
Mi(p, t, j)   == LET h == Dx(p) IN RSub(Aff(p.R, t, X(p, j)), RDiv(RMul(2, Aff(p.D, t, X(p, j))), RMul(h, h)))
Up(p, t, j)   == LET h == Dx(p) IN RAdd(RDiv(Aff(p.D, t, X(p, j)), RMul(h, h)), RDiv(Aff(p.C, t, X(p, j)), RMul(2, h)))
Lu(p, t, u, j) == RAdd(RAdd(RMul(Lo(p, t, j), u[j-1]), RMul(Mi(p, t, j), u[j])), RMul(Up(p, t, j), u[j+1]))
\* tridiagonal elimination: rows <<a, b, c, d>> (a left of, b on, c right of the diagonal)
RECURSIVE Sweep(_, _, _)
Sweep(rows, k, acc) ==                              \* acc: <<c', d'>> so far
  IF k > Len(rows) THEN acc
  ELSE LET r == rows[k]
           pc == IF k = 1 THEN "0" ELSE acc[k-1][1]
           pd == IF k = 1 THEN "0" ELSE acc[k-1][2]
           m == RSub(r[2], RMul(r[1], pc))
       IN Sweep(rows, k + 1, Append(acc, <<RD(RDiv(r[3], m)), RD(RDiv(RSub(r[4], RMul(r[1], pd)), m))>>))
RECURSIVE Back(_, _, _)
Back(acc, k, x) == IF k = 0 THEN x ELSE Back(acc, k - 1, <<RD(IF x = <<>> THEN acc[k][2] ELSE RSub(acc[k][2], RMul(acc[k][1], x[1])))>> \o x)
Tridiag(rows) == LET acc == Sweep(rows, 1, <<>>) IN Back(acc, Len(acc), <<>>)
Initial(p)    == [j \in 1..p.J |-> Ini(p.ic, X(p, j))]
Step(p, u, n) ==                                    \* from time n to n+1
  LET th == Theta(p.scheme)
      t0 == Tm(p, n)
      t1 == Tm(p, n + 1)
      dt == Dt(p)
      l  == RD(Bnd(p.bl, t1, 0))
      r  == RD(Bnd(p.br, t1, p.xDom))
      e  == RMul(dt, RSub(1, th))                   \* weight of the old level
      w  == RMul(dt, th)                            \* weight of the new level
      rhs(j) == RSub(RAdd(u[j], IF th = "1" THEN "0" ELSE RMul(e, Lu(p, t0, u, j))),
                     RAdd(RMul(w, Src(p.f, t1, X(p, j))), RMul(e, Src(p.f, t0, X(p, j)))))
      row(j) == LET a == RNeg(RMul(w, Lo(p, t1, j)))
                    b == RSub(1, RMul(w, Mi(p, t1, j)))
                    c == RNeg(RMul(w, Up(p, t1, j)))
                    d == RSub(RSub(rhs(j), IF j = 2 THEN RMul(a, l) ELSE "0"), IF j = p.J - 1 THEN RMul(c, r) ELSE "0")
                IN <<IF j = 2 THEN "0" ELSE a, b, IF j = p.J - 1 THEN "0" ELSE c, d>>
      inner == IF th = "0" THEN [k \in 1..(p.J - 2) |-> RD(rhs(k + 1))]
               ELSE Tridiag([k \in 1..(p.J - 2) |-> row(k + 1)])
  IN <<l>> \o inner \o <<r>>
RECURSIVE March(_, _, _)
March(p, u, n) == IF n = p.N - 1 THEN u ELSE March(p, Step(p, u, n), n + 1)
Solution(p) == March(p, Initial(p), 0)
\* ------------------------------------------------------------- Black-Scholes data (t: time to maturity)
\* m = [sig, c, r] in force, o = [call, K, T]
Cpn(m) == IF m.c = "none" THEN "0" ELSE m.c
BSdiff(m, x)  == RMul("1/2", RMul(RMul(m.sig, m.sig), RMul(x, x)))
BSconv(m, x)  == RMul(RSub(m.r, Cpn(m)), x)
BSreac(m)     == RNeg(m.r)
BSleft(o, m, t)  == IF o.call THEN "0" ELSE RMul(o.K, RExp(RNeg(RMul(m.r, t))))
BSright(o, m, t, x) == IF o.call THEN RSub(RMul(x, RExp(RNeg(RMul(Cpn(m), t)))), RMul(o.K, RExp(RNeg(RMul(m.r, t))))) ELSE "0"
BSinit(o, x)  == IF o.call THEN RMax(0, RSub(x, o.K)) ELSE RMax(0, RSub(o.K, x))
\* the formula, sig > 0, T > 0, S > 0
BSprice(o, m, S) ==
  LET v == RMul(m.sig, RSqrt(o.T))
      F == RMul(S, RExp(RNeg(RMul(Cpn(m), o.T))))
      B == RMul(o.K, RExp(RNeg(RMul(m.r, o.T))))
      d1 == RAdd(RDiv(RLog(RDiv(F, B)), v), RDiv(v, 2))
      d2 == RSub(d1, v)
  IN IF o.call THEN RSub(RMul(F, RPhi(d1)), RMul(B, RPhi(d2)))
     ELSE RSub(RMul(B, RPhi(RNeg(d2))), RMul(F, RPhi(RNeg(d1))))
=============================================================================
