-------------------------------- MODULE FDMBS --------------------------------
(* The Black-Scholes problem of an option in a live market, and prices        *)
(* against the closed formula.                                                *)
EXTENDS FDM, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Nr(v, w, s) == IsNum(v) /\ RLe(RAbs(RSub(v, w)), RMul("1e-12", s))
Opt(c) == [call |-> c.call, K |-> c.K, T |-> c.T]
Pt(q) ==
  LET m == [sig |-> q.sig, c |-> q.c, r |-> q.r]
      o == Opt(q)
      big == RAdd(RAdd(RAbs(q.x), RAbs(q.K)), 1)
      gr == RMul(big, RAdd(1, RExp(RMul(RAdd(RAbs(q.r), 1), q.t))))
  IN CASE ~Nr(q.diff, BSdiff(m, q.x), BSdiff(m, q.x)) -> "diffusion"
       [] ~Nr(q.conv, BSconv(m, q.x), RMul(RAbs(q.x), RAdd(RAbs(q.r), RAbs(Cpn(m))))) -> "convection"
       [] ~Nr(q.reac, BSreac(m), RAbs(q.r)) -> "reaction"
       [] ~Nr(q.rhs, 0, 0) -> "source"
       [] ~Nr(q.bl, BSleft(o, m, q.t), gr) -> "left boundary"
       [] ~Nr(q.br, BSright(o, m, q.t, q.x), gr) -> "right boundary"
       [] ~Nr(q.ic, BSinit(o, q.x), big) -> "initial condition"
       [] OTHER -> "ok"
\* discretisation error allowed: relative mesh sizes squared (space) and first or second order (time)
Bound(c) ==
  LET v == RMul(c.sig, RSqrt(c.T))
      dx == RDiv(c.xDom, c.J - 1)
      dt == RDiv(c.T, c.N - 1)
      a == RDiv(dx, RMul(c.K, v))                       \* mesh in units of the price's spread
      b == RDiv(dt, c.T)
  IN RMul(c.K, RAdd(RMul(RMul(v, c.kx), RMul(a, a)), RMul(c.kt, RMul(RAdd(v, RMul(RAbs(c.r), c.T)), b))))
Bad(c) ==
  CASE c.st # "ok" -> "failed: " \o c.st
    [] c.k = "coef" -> (IF \A k \in DOMAIN c.pts : Pt(c.pts[k]) = "ok" THEN "ok" ELSE LET k == CHOOSE k \in DOMAIN c.pts : Pt(c.pts[k]) # "ok" IN Pt(c.pts[k]) \o " is not the option's")
    [] c.k = "price" -> (IF IsNum(c.v) /\ RLe(RAbs(RSub(c.v, BSprice(Opt(c), c, c.S))), Bound(c)) THEN "ok"
                         ELSE "price " \o RShow(c.v) \o " is not the Black-Scholes price " \o RShow(BSprice(Opt(c), c, c.S)) \o " within " \o RShow(Bound(c)))
    [] OTHER -> "unknown case"
Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo" /\ st' = "done" /\ i' = i
        /\ LET b == Bad(Cases[i]) IN b = "ok" \/ PrintT(<<"REJECT", Cases[i].id, b>>)
=============================================================================
