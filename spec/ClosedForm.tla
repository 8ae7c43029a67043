----------------------------- MODULE ClosedForm -----------------------------
(***************************************************************************)
(* What contracts are worth where a closed formula exists: the terminal    *)
(* price (or the geometric mean) is a mixture of lognormals, the payoff is *)
(* affine on an interval.                                                  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets
Rn(x)  == RRound(x, 150)
Cp(m)  == IF m.c = "none" THEN 0 ELSE m.c
\* A lognormal: [w, mu, s] - weight, mean and standard deviation of the logarithm (s > 0)
GBM(m, T) == <<[w |-> 1, mu |-> Rn(RAdd(RLog(m.S), RMul(RSub(RSub(m.r, Cp(m)), RDiv(RMul(m.sig, m.sig), 2)), T))), s |-> Rn(RMul(m.sig, RSqrt(T)))]>>
\* geometric mean of n equally spaced prices
GeoMean(m, T, n) ==
  <<[w |-> 1, mu |-> Rn(RAdd(RLog(m.S), RMul(RSub(RSub(m.r, Cp(m)), RDiv(RMul(m.sig, m.sig), 2)), RDiv(RMul(T, n + 1), 2 * n)))),
     s |-> Rn(RMul(m.sig, RSqrt(RDiv(RMul(T, (n + 1) * (2 * n + 1)), 6 * n * n))))]>>
\* jump diffusion with normal jumps: Poisson mixture, truncated after Terms jumps
RECURSIVE PoissonW(_, _)
PoissonW(l, k) == IF k = 0 THEN Rn(RExp(RNeg(l))) ELSE Rn(RDiv(RMul(PoissonW(l, k - 1), l), k))
Merton(m, T, lam, mj, sj, terms) ==
  LET comp == Rn(RMul(lam, RSub(RExp(RAdd(mj, RDiv(RMul(sj, sj), 2))), 1)))
      b    == GBM(m, T)[1]
  IN [k \in 1..(terms + 1) |-> [w |-> PoissonW(RMul(lam, T), k - 1),
                                mu |-> Rn(RSub(RAdd(b.mu, RMul(k - 1, mj)), RMul(comp, T))),
                                s |-> Rn(RSqrt(RAdd(RMul(b.s, b.s), RMul(k - 1, RMul(sj, sj)))))]]
\* E[X^k; lo < X < hi] of one lognormal, k = 0, 1, 2; hi = "inf" and lo = 0 allowed
At(l, x, k) == IF x = "inf" THEN 0 ELSE IF REq(x, 0) THEN 1
               ELSE Rn(RPhi(Rn(RAdd(RDiv(RSub(l.mu, RLog(x)), l.s), RMul(k, l.s)))))
Moment(l, k, lo, hi) == LET f == IF k = 0 THEN 1 ELSE Rn(RExp(RAdd(RMul(k, l.mu), RMul(RDiv(k * k, 2), RMul(l.s, l.s)))))
                        IN RMul(f, RSub(At(l, lo, k), At(l, hi, k)))
Mix(ls, k, lo, hi) == RSum([j \in DOMAIN ls |-> Rn(RMul(ls[j].w, Moment(ls[j], k, lo, hi)))])
\* A claim: a + b X paid on lo < X < hi (an empty interval pays nothing)
Empty(q)    == q.hi # "inf" /\ RLe(q.hi, q.lo)
Mean(q, ls) == IF Empty(q) THEN 0 ELSE RAdd(RMul(q.a, Mix(ls, 0, q.lo, q.hi)), RMul(q.b, Mix(ls, 1, q.lo, q.hi)))
Square(q, ls) == IF Empty(q) THEN 0
                 ELSE RSum(<<RMul(RMul(q.a, q.a), Mix(ls, 0, q.lo, q.hi)), RMul(RMul(2, RMul(q.a, q.b)), Mix(ls, 1, q.lo, q.hi)), RMul(RMul(q.b, q.b), Mix(ls, 2, q.lo, q.hi))>>)
Max2(x, y)  == IF x = "inf" \/ y = "inf" THEN "inf" ELSE RMax(x, y)
Min2(x, y)  == IF x = "inf" THEN y ELSE IF y = "inf" THEN x ELSE RMin(x, y)
Cut(q, lo, hi) == [q EXCEPT !.lo = Max2(q.lo, lo), !.hi = Min2(q.hi, hi)]
Vanilla(cp, K) == IF cp = "call" THEN [a |-> RNeg(K), b |-> 1, lo |-> K, hi |-> "inf"] ELSE [a |-> K, b |-> -1, lo |-> "0", hi |-> K]
Digital(cp, K) == IF cp = "call" THEN [a |-> 1, b |-> 0, lo |-> K, hi |-> "inf"] ELSE [a |-> 1, b |-> 0, lo |-> "0", hi |-> K]
\* one monitoring date: the barrier is tested on the terminal price itself
Barrier(o) == LET v == Vanilla(o.cp, o.K) IN
  IF (o.f = "knockin") = (o.dir = "up") THEN Cut(v, o.B, "inf") ELSE Cut(v, "0", o.B)
Claim(o) == CASE o.f = "digital" -> Digital(o.cp, o.K)
              [] o.f = "ddigital" -> [a |-> 1, b |-> 0, lo |-> o.K1, hi |-> o.K2]
              [] o.f \in {"knockin", "knockout"} -> Barrier(o)
              [] OTHER -> Vanilla(o.cp, o.K)
Law(o, m, x) == CASE x.model = "merton" -> Merton(m, o.T, x.lam, x.muJ, x.sJ, x.terms)
                  [] o.f = "geom" -> GeoMean(m, o.T, x.steps)
                  [] OTHER -> GBM(m, o.T)
Disc(m, T)   == Rn(RExp(RNeg(RMul(m.r, T))))
Worth(o, m, x) == RMul(Disc(m, o.T), Mean(Claim(o), Law(o, m, x)))
=============================================================================
