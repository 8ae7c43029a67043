----------------------------- MODULE DistsJudge -----------------------------
EXTENDS Dists, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
\* -------- quantile: c.p, c.x = inv_cdf(p), c.q = inv_cdf(1-p) with 1-p exact when c.sym
QBad(c) ==
  IF RLe(c.p, 0) \/ RLe(1, c.p) THEN (IF c.st = "invalid_argument" THEN "ok" ELSE "a probability outside (0,1) was not refused with invalid_argument: " \o c.st)
  ELSE CASE c.st # "ok" -> "a probability inside (0,1) was refused"
         [] ~IsNum(c.x) -> "quantile is not a finite number"
         [] InCore(c.p) /\ ~QuantileOK(c.p, c.x) -> "quantile is off by more than 1e-8"
         [] ~InCore(c.p) /\ RLt(c.p, "1/2") /\ ~FarOK(c.p, c.x) -> "quantile of a tiny probability is off"
         [] ~InCore(c.p) /\ RLt("1/2", c.p) /\ ~FarOK(RSub(1, c.p), RNeg(c.x)) -> "quantile of a probability near one is off"
         [] c.sym /\ ~(IsNum(c.q) /\ RLe(RAbs(RAdd(c.x, c.q)), "1e-13")) -> "not antisymmetric about 1/2"
         [] OTHER -> "ok"
\* -------- monotone: c.ps increasing, c.xs their quantiles
MBad(c) == IF \A k \in 2..Len(c.xs) : IsNum(c.xs[k]) /\ RLe(c.xs[k-1], RAdd(c.xs[k], "2e-8")) THEN "ok" ELSE "quantile is not monotone"
\* -------- parameters
PBad(c) == LET ok == Valid(c.ty, c.a, c.b) IN
  IF ok # (c.st = "ok") THEN (IF ok THEN "valid parameters were refused" ELSE "parameters outside the domain were accepted")
  ELSE IF ~ok /\ c.st # "invalid_argument" THEN "refused with another exception than invalid_argument"
  ELSE IF ok /\ c.ty # "snd" /\ c.inv # "logic_error" THEN "a distribution without inverse did not refuse inv_cdf with logic_error"
  ELSE "ok"
\* -------- samples: n draws, mean, variance around the true mean, extremes, counts of draws <= x
Z == 6
SBad(c) ==
  LET m == MeanOf(c.ty, c.a, c.b)
      v == VarOf(c.ty, c.a, c.b)
      lo == LowOf(c.ty, c.a, c.b)
      hi == HighOf(c.ty, c.a, c.b)
  IN CASE c.st # "ok" -> "sampling failed"
       [] ~(IsNum(c.min) /\ IsNum(c.max)) -> "a draw is not a finite number"
       [] lo # "none" /\ ~RLe(lo, c.min) -> "a draw lies below the support"
       [] hi # "none" /\ ~RLe(c.max, hi) -> "a draw lies above the support"
       [] c.ty = "poisson" /\ ~c.whole -> "a Poisson draw is not a whole number"
       [] ~RLe(RMul(RMul(RSub(c.mean, m), RSub(c.mean, m)), c.n), RMul(Z * Z, RMul(v, "1.0000001"))) -> "sample mean is not the law's mean"
       [] ~RLe(RMul(RMul(RSub(c.var, v), RSub(c.var, v)), c.n), RMul(Z * Z, RMul(RMul(v, v), RAdd(KurtOf(c.ty, c.a, c.b), "1/1000")))) -> "sample variance is not the law's variance"
       [] CdfKnown(c.ty, c.a, c.b) /\ \E k \in DOMAIN c.xs :
             LET F == Cdf(c.ty, c.a, c.b, c.xs[k], c.ks[k])
                 f == RDiv(c.cnt[k], c.n)
             IN ~RLe(RMul(RMul(RSub(f, F), RSub(f, F)), c.n), RAdd(RMul(Z * Z, RMul(F, RSub(1, F))), RDiv(1, 100))) -> "sample distribution function is not the law's"
       [] OTHER -> "ok"
Bad(c) == CASE c.k = "q" -> QBad(c) [] c.k = "m" -> MBad(c) [] c.k = "p" -> PBad(c) [] c.k = "s" -> SBad(c)
Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo" /\ st' = "done" /\ i' = i
        /\ LET b == Bad(Cases[i]) IN b = "ok" \/ PrintT(<<"REJECT", Cases[i].id, b>>)
=============================================================================
