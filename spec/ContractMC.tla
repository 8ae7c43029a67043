----------------------------- MODULE ContractMC -----------------------------
(* Exhaustive exploration of Contract over small values; history generator. *)
EXTENDS Contract, TLC, Json
CONSTANTS Mode,          \* "factory" or "payoff"
          Facs, MaxOps, Emit
VARIABLES hist, ops
vars == <<cvars, hist, ops>>
Ss == {"0", "1", "2", "3"}
Doubles == {"-1", "0", "1", "2"}
Values(n) == IF n = "ticker" THEN {<<"string", "A">>, <<"string", "Z">>, <<"double", "1">>}
             ELSE IF n = "direction" THEN {<<"dir", "up">>, <<"dir", "down">>, <<"int", "1">>}
             ELSE {<<"double", d>> : d \in Doubles} \cup {<<"int", "1">>, <<"string", "x">>}
Names == {"ticker", "T", "K", "K1", "K2", "B", "direction"}
Pays4 == {[kind |-> k, cp |-> c, k1 |-> x, k2 |-> 0] : k \in {"vanilla", "digital"}, c \in {"call", "put"}, x \in {"-1", "1", "2"}}
          \cup {[kind |-> "ddigital", cp |-> "both", k1 |-> x, k2 |-> y] : x \in {"1", "2"}, y \in {"-1", "2", "3"}}
          \cup {[kind |-> "floating", cp |-> c, k1 |-> 0, k2 |-> 0] : c \in {"call", "put"}}
Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Spend == ops < MaxOps /\ ops' = ops + 1
\* a usable parameter object to start from, so that short histories reach successful creations
Start == [n \in Names |-> IF n = "ticker" THEN [ty |-> "string", v |-> "A"] ELSE IF n = "direction" THEN [ty |-> "dir", v |-> "up"] ELSE [ty |-> "double", v |-> IF n = "K2" THEN "2" ELSE "1"]]
Init == CInit /\ hist = <<>> /\ ops = 0
Factory ==
  \/ params = None /\ params' = Start /\ known' = {"A"} /\ UNCHANGED <<opts, pool, recs, ops>> /\ Note([e |-> "start"])
  \/ \E n \in Names : \E v \in Values(n) : Spend /\ SetParam(n, v[1], v[2]) /\ Note([e |-> "set", n |-> n, ty |-> v[1], v |-> v[2]])
  \/ Spend /\ params # None /\ Clear /\ Note([e |-> "clear"])
  \/ \E f \in Facs, c \in {"call", "put"}, i \in {1, 2} : Spend /\ Create(i, f, c) /\ Note([e |-> "create", i |-> i, f |-> f, cp |-> c])
  \/ \E i \in DOMAIN opts : Spend /\ DropOption(i) /\ Note([e |-> "dropopt", i |-> i])
  \/ Spend /\ AddTicker("A") /\ Note([e |-> "ticker", t |-> "A"])
Payoffs ==
  \/ \E i \in {1, 2, 3}, p \in Pays4 : Spend /\ Make(i, p) /\ Note([e |-> "make", i |-> i, p |-> p])
  \/ \E i \in DOMAIN pool, j \in {1, 2, 3} : Spend /\ Clone(i, j) /\ Note([e |-> "clone", i |-> i, j |-> j])
  \/ \E i \in DOMAIN pool : Spend /\ Destroy(i) /\ Note([e |-> "destroy", i |-> i])
Next == IF Mode = "factory" THEN Factory ELSE Payoffs
Spec == Init /\ [][Next]_vars
InvEq == EqualPaysSame(Ss)
InvNeg == NeverNegative(Ss)
InvPar == Parity(Ss)
InvPart == Partition(Ss)
Complete == ~(Emit /\ ops = MaxOps) \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
