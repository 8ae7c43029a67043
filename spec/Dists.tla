-------------------------------- MODULE Dists --------------------------------
(* The laws of the distribution objects: domain, support, mean, variance and  *)
(* distribution function, and the accuracy of the normal quantile.            *)
EXTENDS Rat, Integers, Sequences
\* ------------------------------------------------------------- domain
Valid(ty, a, b) == CASE ty = "normal" -> RLt(0, b)
                     [] ty = "uniform" -> RLt(a, b)
                     [] ty = "exp" -> RLt(0, a)
                     [] ty = "gamma" -> RLt(0, a) /\ RLt(0, b)
                     [] ty = "poisson" -> RLt(0, a)
                     [] ty = "snd" -> TRUE
MeanOf(ty, a, b) == CASE ty = "normal" -> R(a)
                      [] ty = "uniform" -> RDiv(RAdd(a, b), 2)
                      [] ty = "exp" -> RDiv(1, a)
                      [] ty = "gamma" -> RDiv(a, b)
                      [] ty = "poisson" -> R(a)
                      [] ty = "snd" -> "0"
VarOf(ty, a, b) == CASE ty = "normal" -> RMul(b, b)
                     [] ty = "uniform" -> RDiv(RMul(RSub(b, a), RSub(b, a)), 12)
                     [] ty = "exp" -> RDiv(1, RMul(a, a))
                     [] ty = "gamma" -> RDiv(a, RMul(b, b))
                     [] ty = "poisson" -> R(a)
                     [] ty = "snd" -> "1"
\* excess fourth central moment E(X-m)^4 / Var^2
KurtOf(ty, a, b) == CASE ty = "normal" \/ ty = "snd" -> "3"
                      [] ty = "uniform" -> "9/5"
                      [] ty = "exp" -> "9"
                      [] ty = "gamma" -> RAdd(3, RDiv(6, a))
                      [] ty = "poisson" -> RAdd(3, RDiv(1, a))
\* smallest and largest possible value ("none": unbounded)
LowOf(ty, a, b) == CASE ty = "uniform" -> a [] ty \in {"exp", "gamma", "poisson"} -> "0" [] OTHER -> "none"
HighOf(ty, a, b) == IF ty = "uniform" THEN b ELSE "none"
\* ------------------------------------------------------------- distribution functions
RECURSIVE PoisSum(_, _, _, _)
PoisSum(m, k, i, term) == IF i > k THEN "0" ELSE RAdd(term, PoisSum(m, k, i + 1, RRound(RDiv(RMul(term, m), i + 1), 220)))
PoisCdf(m, k) == RMul(RExp(RNeg(m)), PoisSum(m, k, 0, "1"))               \* P(N <= k)
CdfKnown(ty, a, b) == CASE ty = "gamma" -> \E k \in 1..12 : REq(a, k)
                       [] ty = "poisson" -> RLe(a, 40)
                       [] OTHER -> TRUE
IntShape(a) == CHOOSE k \in 1..12 : REq(a, k)
\* P(X <= x) at a point x; for the Poisson law x is an integer k with the real value x
Cdf(ty, a, b, x, k) == CASE ty = "normal" -> RPhi(RDiv(RSub(x, a), b))
                         [] ty = "snd" -> RPhi(x)
                         [] ty = "uniform" -> RMax(0, RMin(1, RDiv(RSub(x, a), RSub(b, a))))
                         [] ty = "exp" -> IF RLe(x, 0) THEN "0" ELSE RSub(1, RExp(RNeg(RMul(a, x))))
                         [] ty = "gamma" -> IF RLe(x, 0) THEN "0" ELSE RSub(1, PoisCdf(RMul(b, x), IntShape(a) - 1))   \* Erlang
                         [] ty = "poisson" -> IF k < 0 THEN "0" ELSE PoisCdf(a, k)
\* ------------------------------------------------------------- normal quantile
Acc == "1e-8"
CoreLo == "1e-12"
InCore(p) == RLe(CoreLo, p) /\ RLe(p, RSub(1, CoreLo))
\* p < 1e-12: with L = -2 ln p the quantile is -sqrt(M - ln M), M = L - ln 2pi, within 0.003
FarOK(p, x) == LET M == RSub(RMul(-2, RLog(p)), "1.8378770664093454836")
               IN RLe(RAbs(RAdd(x, RSqrt(RSub(M, RLog(M))))), "1/50")
QuantileOK(p, x) == RLe(RPhi(RSub(x, Acc)), p) /\ RLe(p, RPhi(RAdd(x, Acc)))   \* |x - Phi^-1(p)| <= Acc
=============================================================================
