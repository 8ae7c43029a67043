----------------------------- MODULE ModelsHist -----------------------------
(* Histories of a live market with models in it: what a simulation uses is   *)
(* the latest accepted data of the model's own ticker.                       *)
EXTENDS Models, TLC, Json
CONSTANTS Mks, Tickers, MaxOps, Emit
VARIABLES h
hv == <<lv, h>>
Rec(S, g, c) == [S |-> S, sig |-> g, c |-> c]
Recs == {Rec("1", "1", "none"), Rec("2", "0", "1"), Rec("0", "1", "none"), Rec("1", "-1", "0")}
Init == LInit /\ h = <<>>
Do(e) == h' = Append(h, e)
Next ==
  /\ Len(h) < MaxOps
  /\ \/ \E k \in Mks, q \in {"0", "1"} : LRate(k, q) /\ Do([op |-> "rate", k |-> k, q |-> q])
     \/ \E k \in Mks, t \in Tickers, q \in Recs : LRegister(k, t, q) /\ Do([op |-> "reg", k |-> k, t |-> t, q |-> q])
     \/ \E k \in Mks, t \in Tickers, u \in {<<"S", "3">>, <<"S", "-1">>, <<"sig", "2">>, <<"sig", "-1">>, <<"c", "1">>, <<"c", "2">>} :
           LUpdate(k, t, u[1], u[2]) /\ Do([op |-> "upd", k |-> k, t |-> t, f |-> u[1], v |-> u[2], ok |-> UpdOK(k, t, u[1], u[2])])
     \/ \E m \in 1..2, k \in Mks, t \in Tickers : LModel(m, "gbm", [x |-> 0], [s |-> "-"], k, t, 1) /\ Do([op |-> "model", m |-> m, k |-> k, t |-> t])
     \/ \E m \in DOMAIN mdl : UNCHANGED lv /\ Do([op |-> "sim", m |-> m, uses |-> RecordOf(m), r |-> rate[mdl[m].k]])
Spec == Init /\ [][Next]_hv
\* the record of t in source k after the first n events, from the history alone (NoRec: not registered)
NoRec == [S |-> "none", sig |-> "none", c |-> "none"]
RECURSIVE After(_, _, _)
After(k, t, n) ==
  IF n = 0 THEN NoRec
  ELSE LET e == h[n]
           p == After(k, t, n - 1)
       IN CASE e.op = "reg" /\ e.k = k /\ e.t = t /\ ValidRecord(e.q) -> e.q
            [] e.op = "upd" /\ e.k = k /\ e.t = t /\ e.ok -> [p EXCEPT ![e.f] = e.v]
            [] OTHER -> p
\* creation of model m from the history: the last successful one
MadeAt(m, n) == LET c == {i \in 1..n : h[i].op = "model" /\ h[i].m = m /\ After(h[i].k, h[i].t, i) # NoRec}
                IN h[CHOOSE i \in c : \A j \in c : j <= i]
RateAfter(k, n) == LET c == {i \in 1..n : h[i].op = "rate" /\ h[i].k = k} IN IF c = {} THEN "-" ELSE h[CHOOSE i \in c : \A j \in c : j <= i].q
SimUsesCurrent == \A n \in DOMAIN h : h[n].op = "sim" => LET c == MadeAt(h[n].m, n) IN
   /\ h[n].uses = After(c.k, c.t, n)
   /\ RateAfter(c.k, n) # "-" => h[n].r = RateAfter(c.k, n)
Valid == \A t \in DOMAIN stock : ValidRecord(stock[t])
Complete == Emit /\ Len(h) = MaxOps => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
