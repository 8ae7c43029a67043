---------------------------- MODULE MarketTrace ----------------------------
(* Decides whether recorded executions of the real market-data component    *)
(* are behaviours of Market.  Each recorded event is matched by the action  *)
(* of the same name; every value read from the real component must be the   *)
(* one the specification has in that state.                                 *)
EXTENDS Market, TLC, Json, IOUtils
CONSTANT Focus       \* which observations are compared: subset of {"data", "handles", "notify"}
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos
tvars == <<mvars, tr, pos>>

Same(a, b)   == Num(a) = b
SameRec(a, q) == Same(a.S, q.S) /\ Same(a.sig, q.sig) /\ Same(a.c, q.c)
\* s: what was read; st, rt, hd: the specification's data at that moment
Data(s, st, rt) ==
  ("data" \in Focus) =>
    /\ Same(s.rate, rt)
    /\ \A t \in DOMAIN s.stock : SameRec(s.stock[t], IF t \in DOMAIN st THEN st[t] ELSE Absent)
Handles(s, st, hd) ==
  ("handles" \in Focus) =>
    \A h \in DOMAIN s.hand : h \in DOMAIN hd /\ SameRec(s.hand[h], st[hd[h]])
SnapNow(s)   == Data(s, stock, rate) /\ Handles(s, stock, hand)

Ev  == Traces[tr].ev[pos]
NoteAll == "notify" \in Focus
Step ==
  LET e == Ev IN
  CASE e.e = "begin"    -> Begin(e.o)
    [] e.e = "deliver"  -> /\ IF NoteAll THEN Deliver(e.o) ELSE UNCHANGED mvars
                           /\ NoteAll => /\ Same(e.snap.rate, rate)
                                         /\ \A t \in DOMAIN e.snap.stock : SameRec(e.snap.stock[t], Look(t))
                           /\ SnapNow(e.snap)
    [] e.e = "end"      -> /\ Len(frames) > 0
                           /\ e.st = Top.st
                           /\ IF NoteAll THEN End
                              ELSE Pop /\ UNCHANGED <<rate, stock, hand, watch, regs>>
                           /\ SnapNow(e.snap)
    [] e.e = "create"   -> Create(e.o, e.t)
    [] e.e = "register" -> Register(e.o)
    [] e.e = "drop"     -> Drop(e.o)
    [] e.e = "mkopt"    -> /\ e.st = (IF OptionOk(e.t, e.k, e.m) THEN "ok" ELSE "invalid_argument")
                           /\ MakeOption(e.o, e.t, e.k, e.m)
    [] e.e = "take"     -> /\ e.st = (IF e.t \in DOMAIN stock THEN "ok" ELSE "invalid_argument")
                           /\ Take(e.h, e.t)
    [] e.e = "snap"     -> UNCHANGED mvars /\ SnapNow(e.snap)
    [] OTHER            -> FALSE

TInit == tr \in DOMAIN Traces /\ pos = 1 /\ MInit
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
\* The specification's own invariants are re-checked along real executions.
TInv == RecordsValid /\ HandlesLive /\ RegsLive /\ OwedAlive /\ LingerNested
=============================================================================
