------------------------------- MODULE DistsMC -------------------------------
(* Consistency of Dists: the distribution functions have the stated mean,     *)
(* variance and support (numerically integrated), and QuantileOK is monotone  *)
(* and symmetric.                                                             *)
EXTENDS Dists
CONSTANTS Laws, N
LawsDef == {<<"normal", "1", "2">>, <<"snd", "0", "1">>, <<"uniform", "-1", "3">>, <<"exp", "2", "0">>, <<"gamma", "3", "2">>, <<"gamma", "1", "1/2">>, <<"poisson", "3", "0">>, <<"poisson", "1/2", "0">>}
VARIABLES l, done
Init == l \in Laws /\ done = FALSE
Next == ~done /\ done' = TRUE /\ l' = l
\* cell i of a fine partition of [m - 8s - , m + 12s]; mass at its midpoint
Sd(t) == RSqrt(VarOf(t[1], t[2], t[3]))
Lo(t) == IF t[1] \in {"exp", "gamma", "poisson"} THEN "0" ELSE RSub(MeanOf(t[1], t[2], t[3]), RMul(7, Sd(t)))
Hi(t) == RAdd(MeanOf(t[1], t[2], t[3]), RMul(IF t[1] \in {"exp", "gamma"} THEN 20 ELSE 7, Sd(t)))
X(t, i) == RAdd(Lo(t), RDiv(RMul(RSub(Hi(t), Lo(t)), i), N))
F(t, i) == IF t[1] = "poisson" THEN Cdf(t[1], t[2], t[3], i, i) ELSE Cdf(t[1], t[2], t[3], X(t, i), 0)
Mid(t, i) == IF t[1] = "poisson" THEN R(i) ELSE RDiv(RAdd(X(t, i - 1), X(t, i)), 2)
Mass(t) == [i \in 1..N |-> RSub(F(t, i), F(t, i - 1))]
Mean1(t) == RDot(Mass(t), [i \in 1..N |-> Mid(t, i)])
Var1(t) == RDot(Mass(t), [i \in 1..N |-> LET d == RSub(Mid(t, i), MeanOf(t[1], t[2], t[3])) IN RMul(d, d)])
Moments == done => LET t == l
                       p0 == IF t[1] = "poisson" THEN Cdf(t[1], t[2], t[3], 0, 0) ELSE "0"
                       m == MeanOf(t[1], t[2], t[3])
                   IN /\ RLe(RAbs(RSub(Mean1(t), m)), RMul("0.005", Sd(t)))
                      /\ RLe(RAbs(RSub(RAdd(Var1(t), RMul(p0, RMul(m, m))), VarOf(t[1], t[2], t[3]))), RMul("0.02", VarOf(t[1], t[2], t[3])))
Monotone == done => \A i \in 1..N : RLe(F(l, i - 1), F(l, i))
QSym == done => \A x \in {"0", "0.5", "1.5", "3", "-2"} : QuantileOK(RPhi(x), x) /\ QuantileOK(RSub(1, RPhi(x)), RNeg(x)) /\ ~QuantileOK(RPhi(x), RAdd(x, "1.1e-8"))
Spec == Init /\ [][Next]_<<l, done>>
=============================================================================
