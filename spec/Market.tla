------------------------------- MODULE Market -------------------------------
(***************************************************************************)
(* The market-data component: a rate, stock records per ticker, handles to *)
(* stock records, observers, and synchronous - possibly re-entrant -       *)
(* notification.                                                           *)
(*                                                                         *)
(* A change is Begin (the decision and, if accepted, the whole effect on   *)
(* the data), then one Deliver per registration of every affected          *)
(* observer, then End.  Between Begin and End the observers called may do  *)
(* anything: create, register or drop observers, or begin further changes; *)
(* these nest, so pending notifications form a stack.                      *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

VARIABLES
  rate,      \* the risk-free rate
  stock,     \* ticker -> [S, sig, c], c = "none" when there is no dividend yield
  hand,      \* handle -> ticker it was taken for
  watch,     \* live observer -> ticker it observes
  regs,      \* registrations, one entry per call, of live observers
  frames,    \* stack of changes in progress
  ling       \* observers let go during a notification; any enclosing notification may keep them
             \* alive until the outermost one is over: observer -> [t: ticker, n: registrations]

data   == <<rate, stock>>
mvars  == <<rate, stock, hand, watch, regs, frames, ling>>

Num(x)      == IF IsNum(x) THEN R(x) ELSE x
ValidPrice(x) == IsNum(x) /\ RLt(0, x)
ValidSigma(x) == IsNum(x) /\ RLe(0, x)
ValidYield(x) == x = "none" \/ (IsNum(x) /\ RLe(0, x) /\ RLe(x, 1))
ValidRec(q)   == ValidPrice(q.S) /\ ValidSigma(q.sig) /\ ValidYield(q.c)

Absent      == [S |-> "absent", sig |-> "absent", c |-> "absent"]
Look(t)     == IF t \in DOMAIN stock THEN stock[t] ELSE Absent
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ---- changes ----  [op, tk, S, sig, c] / [op, tk, v] / [op, v]            *)
(* "notify" changes no data: it only tells the observers of tk ("*": all).   *)
Rec(o)      == [S |-> Num(o.S), sig |-> Num(o.sig), c |-> Num(o.c)]
Accepts(o)  ==
  CASE o.op = "add"    -> ValidPrice(o.S) /\ ValidSigma(o.sig) /\ ValidYield(o.c)
    [] o.op = "price"  -> o.tk \in DOMAIN stock /\ ValidPrice(o.v)
    [] o.op = "sigma"  -> o.tk \in DOMAIN stock /\ ValidSigma(o.v)
    [] o.op = "yield"  -> o.tk \in DOMAIN stock /\ ValidYield(o.v)
    [] o.op = "rate"   -> IsNum(o.v)
    [] o.op = "notify" -> TRUE
StockAfter(o) ==
  CASE o.op = "add"    -> Put(stock, o.tk, Rec(o))
    [] o.op = "price"  -> [stock EXCEPT ![o.tk].S = Num(o.v)]
    [] o.op = "sigma"  -> [stock EXCEPT ![o.tk].sig = Num(o.v)]
    [] o.op = "yield"  -> [stock EXCEPT ![o.tk].c = Num(o.v)]
    [] OTHER           -> stock
RateAfter(o)  == IF o.op = "rate" THEN Num(o.v) ELSE rate

Count(o)      == Cardinality({i \in DOMAIN regs : regs[i] = o})
InScope(sc, o) == sc = "*" \/ (sc # "" /\ watch[o] = sc)
\* A first registration of a ticker may or may not be announced to observers already waiting for it.
First(o)      == o.op = "add" /\ o.tk \notin DOMAIN stock
Frame(o) ==
  IF ~Accepts(o) THEN [st |-> "invalid_argument", sc |-> "", must |-> [x \in {} |-> 0], may |-> [x \in {} |-> 0]]
  ELSE LET sc == IF o.op = "rate" THEN "*" ELSE o.tk
           due == [x \in {y \in DOMAIN watch : InScope(sc, y) /\ Count(y) > 0} |-> Count(x)]
           none == [x \in {} |-> 0]
           lg   == [x \in {y \in DOMAIN ling : sc = "*" \/ ling[y].t = sc} |-> ling[x].n]
           both == [x \in DOMAIN due \cup DOMAIN lg |-> IF x \in DOMAIN due THEN due[x] ELSE lg[x]]
       IN [st |-> "ok", sc |-> sc, must |-> IF First(o) THEN none ELSE due, may |-> IF First(o) THEN both ELSE lg]

Get(f, k)   == IF k \in DOMAIN f THEN f[k] ELSE 0
Top         == frames[Len(frames)]
SetTop(f)   == [frames EXCEPT ![Len(frames)] = f]

MInit ==
  /\ rate = R("0x1.999999999999ap-5")       \* 0.05 as a double
  /\ stock = [t \in {} |-> Absent]
  /\ hand = [h \in {} |-> ""]
  /\ watch = [o \in {} |-> ""]
  /\ regs = <<>>
  /\ frames = <<>>
  /\ ling = [o \in {} |-> 0]

Begin(o) ==
  /\ frames' = Append(frames, Frame(o))
  /\ IF Accepts(o) THEN stock' = StockAfter(o) /\ rate' = RateAfter(o) ELSE UNCHANGED data
  /\ UNCHANGED <<hand, watch, regs, ling>>

Deliver(o) ==
  /\ Len(frames) > 0
  /\ \/ /\ Get(Top.must, o) > 0
        /\ frames' = SetTop([Top EXCEPT !.must[o] = @ - 1])
     \/ /\ Get(Top.must, o) = 0 /\ Get(Top.may, o) > 0
        /\ frames' = SetTop([Top EXCEPT !.may[o] = @ - 1])
  /\ UNCHANGED <<rate, stock, hand, watch, regs, ling>>

Pop ==
  /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
  /\ ling' = IF Len(frames) = 1 THEN [x \in {} |-> 0] ELSE ling
End ==
  /\ Len(frames) > 0
  /\ \A o \in DOMAIN Top.must : Top.must[o] = 0
  /\ Pop
  /\ UNCHANGED <<rate, stock, hand, watch, regs>>

Create(o, t) ==
  /\ o \notin DOMAIN watch \cup DOMAIN ling
  /\ watch' = Put(watch, o, t)
  /\ UNCHANGED <<rate, stock, hand, regs, frames, ling>>

\* Registered while a notification is under way: told about it or not, both are fine.
Late(fs, o, t, n) == [i \in DOMAIN fs |->
    IF fs[i].sc = "*" \/ (fs[i].sc # "" /\ fs[i].sc = t) THEN [fs[i] EXCEPT !.may = Put(@, o, Get(@, o) + n)] ELSE fs[i]]
Register(o) ==
  /\ o \in DOMAIN watch
  /\ regs' = Append(regs, o)
  /\ frames' = Late(frames, o, watch[o], 1)
  /\ UNCHANGED <<rate, stock, hand, watch, ling>>

\* The last owner lets go.  Calls still owed by notifications under way lapse (they may still come
\* if the notification keeps the observer alive until it is over).
Drop(o) ==
  /\ o \in DOMAIN watch
  /\ watch' = Without(watch, o)
  /\ regs' = SelectSeq(regs, LAMBDA x : x # o)
  /\ frames' = [i \in DOMAIN frames |->
        [frames[i] EXCEPT !.must = Without(@, o), !.may = IF Get(frames[i].must, o) > 0 THEN Put(@, o, Get(@, o) + frames[i].must[o]) ELSE @]]
  /\ ling' = IF frames = <<>> THEN ling ELSE Put(ling, o, [t |-> watch[o], n |-> Count(o)])
  /\ UNCHANGED <<rate, stock, hand>>

\* An option made by a factory: refused for an unknown ticker or a negative strike or maturity,
\* otherwise created and registered in one go.
OptionOk(t, k, mat) == t \in DOMAIN stock /\ RLe(0, k) /\ RLe(0, mat)
MakeOption(o, t, k, mat) ==
  IF OptionOk(t, k, mat)
  THEN /\ o \notin DOMAIN watch \cup DOMAIN ling
       /\ watch' = Put(watch, o, t)
       /\ regs' = Append(regs, o)
       /\ frames' = Late(frames, o, t, 1)
       /\ UNCHANGED <<rate, stock, hand, ling>>
  ELSE UNCHANGED mvars

Take(h, t) ==
  IF t \in DOMAIN stock THEN hand' = Put(hand, h, t) /\ UNCHANGED <<rate, stock, watch, regs, frames, ling>>
  ELSE UNCHANGED mvars

(* ---- what the component guarantees ---- *)
RecordsValid   == \A t \in DOMAIN stock : ValidRec(stock[t])
HandlesLive    == \A h \in DOMAIN hand : hand[h] \in DOMAIN stock
RegsLive       == \A i \in DOMAIN regs : regs[i] \in DOMAIN watch
NothingOwedIdle == frames = <<>> \/ \A i \in DOMAIN frames : frames[i].st # "ok" => frames[i].must = [x \in {} |-> 0]
LingerNested   == \A o \in DOMAIN ling : o \notin DOMAIN watch /\ frames # <<>>
OwedAlive      == \A i \in DOMAIN frames : DOMAIN frames[i].must \subseteq DOMAIN watch
MTypeOK        == /\ IsNum(rate)
                  /\ \A o \in DOMAIN watch : TRUE
                  /\ \A i \in DOMAIN frames : \A o \in DOMAIN frames[i].must : frames[i].must[o] >= 0
\* Data change only in Begin, and then in at most one field (or one whole record).
Fields(t)      == {<<t, f>> : f \in {"S", "sig", "c"}}
OneChange ==
  \/ UNCHANGED data
  \/ stock' = stock
  \/ /\ rate' = rate
     /\ \E t \in DOMAIN stock' :
          /\ \A u \in (DOMAIN stock \cup DOMAIN stock') \ {t} : u \in DOMAIN stock /\ u \in DOMAIN stock' /\ stock'[u] = stock[u]
\* A change that is refused leaves the data alone; data change only together with a new accepted frame.
AllOrNothing ==
  (~UNCHANGED data) => /\ Len(frames') = Len(frames) + 1
                       /\ frames'[Len(frames')].st = "ok"
=============================================================================
