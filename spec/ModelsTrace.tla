----------------------------- MODULE ModelsTrace -----------------------------
(* Recorded uses of stock models in a live market against Models.            *)
EXTENDS Models, TLC, Json, IOUtils
CONSTANT Tol
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos
Near(v, w) == IsNum(v) /\ RLe(RAbs(RSub(v, w)), RAdd(RMul(Tol, RAbs(w)), "1e-40"))     \* (prices may underflow)
Near2(v, w) == IsNum(v) /\ RLe(RAbs(RSub(v, w)), RMul("1e-12", RMax(1, RAbs(w))))
SameLaws(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].ty = b[i].ty /\ RClose(a[i].a, b[i].a, "1e-12") /\ RClose(a[i].b, b[i].b, "1e-12")
SimOK(e) ==
  LET k == mdl[e.m] IN
  /\ e.st = "ok" /\ e.odd = 0                          \* every draw came from a law of the model
  /\ Assert(SameLaws(e.laws, Laws(k.kind, k.par, RDiv(e.T, k.steps))), <<"candidate laws disagree with the specification", Traces[tr].id>>)
  /\ \E alt \in Alts(k.kind) :
       /\ Enough(k.kind, k.par, k.steps, e.ds, alt)
       /\ \E p \in {PathOf(e.m, e.T, e.ds, alt)} :          \* (evaluated once)
             IF e.how = "mat" THEN Len(e.out) = 1 /\ Near(e.out[1], p[Len(p)])
             ELSE Len(e.out) = Len(p) /\ \A i \in DOMAIN p : Near(e.out[i], p[i])
SameNum(a, b) == IF b = "none" \/ a = "none" THEN a = b ELSE REq(a, b)
Step ==
  LET e == Traces[tr].ev[pos] IN
  CASE e.e = "rate"  -> LRate(e.mk, R(e.r))
    [] e.e = "reg"   -> LET q == [S |-> e.S, sig |-> e.sig, c |-> e.c] IN e.st = (IF ValidRecord(q) THEN "ok" ELSE "invalid_argument") /\ LRegister(e.mk, e.t, q)
    [] e.e = "upd"   -> e.st = (IF UpdOK(e.mk, e.t, e.f, e.v) THEN "ok" ELSE "invalid_argument") /\ LUpdate(e.mk, e.t, e.f, e.v)
    [] e.e = "read"  -> /\ <<e.mk, e.t>> \in DOMAIN stock /\ LET q == stock[<<e.mk, e.t>>] IN REq(e.S, q.S) /\ REq(e.sig, q.sig) /\ SameNum(e.c, q.c) /\ REq(e.r, rate[e.mk])
                        /\ UNCHANGED lv
    [] e.e = "model" -> /\ IF MakeOK(e.kind, e.par, e.mk, e.t) THEN e.st = "ok" ELSE e.st \in (IF <<e.mk, e.t>> \in DOMAIN stock THEN Refusal(e.kind) ELSE {"invalid_argument"} \cup (IF ValidPar(e.kind, e.par) THEN {} ELSE Refusal(e.kind)))
                        /\ LModel(e.m, e.kind, e.par, e.scheme, e.mk, e.t, e.steps)
    [] e.e = "sim"   -> SimOK(e) /\ UNCHANGED lv
    [] e.e = "back"  -> /\ e.st = "ok" /\ e.odd = 0 /\ Len(e.ds[1]) >= 1
                        /\ Near(e.out, Bridge(RecordOf(e.m), e.S, e.tj, e.tn, e.ds[1][1])) /\ UNCHANGED lv
    [] e.e = "cir"   -> Near2(e.out, NextVar(e.scheme, e.par, e.V, e.dt, e.z)) /\ UNCHANGED lv
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ LInit
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
=============================================================================
