------------------------------- MODULE FDMHist -------------------------------
(* Histories of finite-difference solvers in a live market: the grid is fixed *)
(* by the first query, prices follow the spot in force at the place (market  *)
(* data source and stock) the solver was made for.                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Solvers, Hows, Places, Spots, Asks, MaxOps, Emit
VARIABLES spot, sol, h
vars == <<spot, sol, h>>
Init == spot = [m \in Places |-> 1] /\ sol = [s \in {} |-> 0] /\ h = <<>>
Do(e) == h' = Append(h, e)
Put(s, v) == [x \in DOMAIN sol \cup {s} |-> IF x = s THEN v ELSE sol[x]]
Next ==
  /\ Len(h) < MaxOps
  /\ \/ \E s \in Solvers, w \in Hows, m \in Places : s \notin DOMAIN sol /\ sol' = Put(s, [how |-> w, at |-> m, steps |-> 0]) /\ spot' = spot /\ Do([op |-> "new", s |-> s, how |-> w, at |-> m])
     \/ \E s \in DOMAIN sol : sol' = Put(s, [sol[s] EXCEPT !.steps = 1]) /\ spot' = spot /\ Do([op |-> "solve", s |-> s, steps |-> 1])
     \/ \E s \in DOMAIN sol, n \in 1..Asks : sol' = Put(s, [sol[s] EXCEPT !.steps = 1]) /\ spot' = spot /\ Do([op |-> "price", s |-> s, times |-> n, uses |-> spot[sol[s].at], how |-> sol[s].how])
     \/ \E v \in Spots, m \in Places : v # spot[m] /\ spot' = [spot EXCEPT ![m] = v] /\ sol' = sol /\ Do([op |-> "spot", v |-> v, at |-> m])
     \/ \E m \in Places : UNCHANGED <<spot, sol>> /\ Do([op |-> "other", at |-> m])           \* another change of the market, or a rejected one
Spec == Init /\ [][Next]_vars
LastSpot(n) == LET c == {k \in 1..n : h[k].op = "spot" /\ h[k].at = sol[h[n].s].at} IN IF c = {} THEN 1 ELSE h[CHOOSE k \in c : \A j \in c : j <= k].v
Follows == \A n \in DOMAIN h : h[n].op = "price" => h[n].uses = LastSpot(n)
Once == \A s \in DOMAIN sol : sol[s].steps <= 1
Complete == Emit /\ Len(h) = MaxOps => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
