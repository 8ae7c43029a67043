--------------------------- MODULE ClosedFormJudge ---------------------------
(* Monte Carlo prices of the real library against closed formulas.  With     *)
(* pseudo-random numbers the estimate has the standard deviation of one      *)
(* discounted payoff over the square root of the number of paths; with       *)
(* quasi-random numbers its error is of lower order (c.tol, in units of the  *)
(* payoff's standard deviation).                                             *)
EXTENDS ClosedForm, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Verdict(c) ==
  IF c.st # "ok" \/ ~IsNum(c.v) THEN "failed: " \o c.st
  ELSE CHOOSE r \in {LET d == Disc(c.m, c.o.T)
                         q == Claim(c.o)
                         mu == Mean(q, ls)
                         sd == RSqrt(RMax(0, RSub(Square(q, ls), RMul(mu, mu))))
                         w == RMul(d, mu)
                         tol == RAdd(RMul(RMul(d, sd), c.tol), RMul("1e-9", RMax(w, RMul("1e-3", c.m.S))))
                     IN IF RLe(RAbs(RSub(c.v, w)), tol) THEN "ok"
                        ELSE "price " \o RShow(c.v) \o " is not the value " \o RShow(w) \o " within " \o RShow(tol) : ls \in {Law(c.o, c.m, c.x)}} : TRUE
Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo" /\ st' = "done" /\ i' = i
        /\ \E b \in {Verdict(Cases[i])} : b = "ok" \/ PrintT(<<"REJECT", Cases[i].id, b>>)
=============================================================================
