------------------------------- MODULE FDMUse -------------------------------
(* Recorded queries of real solvers: one grid per solver, prices interpolate  *)
(* it at the spot in force at the place (market data source and stock) the    *)
(* solver was made for.                                                       *)
EXTENDS FDM, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos, spot, sol
Xs(s) == [j \in 1..Len(s.ys) |-> RDiv(RMul(s.xDom, j - 1), Len(s.ys) - 1)]
PriceOf(s, S) == IF s.how = "custom" THEN RAdd(RAdd(RMul(2, s.ys[1]), RMul(3, s.ys[Len(s.ys)])), S)      \* the user's own interpolation
                 ELSE Interp(IF s.how = "none" THEN "linear" ELSE s.how, Xs(s), s.ys, S)
Scale(s, S) == RAdd(RAdd(VMax(s.ys), RAbs(S)), 1)
SameGrid(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : IsNum(a[j]) /\ IsNum(b[j]) /\ REq(a[j], b[j])
Event ==
  LET e == Traces[tr].ev[pos] IN
  CASE e.e = "new"   -> /\ e.st = "ok" /\ Len(e.grid) = e.J /\ \A j \in DOMAIN e.grid : IsNum(e.grid[j])
                        /\ sol' = [x \in DOMAIN sol \cup {e.s} |-> IF x = e.s THEN [how |-> e.how, at |-> e.at, xDom |-> e.xDom, ys |-> e.grid] ELSE sol[x]] /\ spot' = spot
    [] e.e = "solve" -> e.st = "ok" /\ SameGrid(e.grid, sol[e.s].ys) /\ UNCHANGED <<spot, sol>>
    [] e.e = "price" -> /\ e.st = "ok" /\ IsNum(e.v) /\ LET S == spot[sol[e.s].at] IN RLe(RAbs(RSub(e.v, PriceOf(sol[e.s], S))), RMul("1e-9", Scale(sol[e.s], S)))
                        /\ UNCHANGED <<spot, sol>>
    [] e.e = "spot"  -> spot' = (IF IsNum(e.v) /\ RLt(0, e.v) THEN [spot EXCEPT ![e.at] = e.v] ELSE spot) /\ sol' = sol
    [] e.e = "other" -> UNCHANGED <<spot, sol>>
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ spot = [m \in {"sA", "sB", "oA", "oB"} |-> "1"] /\ sol = [s \in {} |-> 0]
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Event
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
=============================================================================
