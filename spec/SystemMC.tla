------------------------------ MODULE SystemMC ------------------------------
(* Exhaustive exploration of System over small values; history generator.   *)
EXTENDS System, TLC, Json
CONSTANTS Mode, Facs, MaxOps, Emit
VARIABLES hist, ops
vars == <<svars, hist, ops>>
Note(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Spend   == ops < MaxOps /\ ops' = ops + 1
Names   == {"ticker", "T", "K", "K1", "K2", "B", "direction"}
Start(t, k) == [n \in Names |-> IF n = "ticker" THEN [ty |-> "string", v |-> t] ELSE IF n = "direction" THEN [ty |-> "dir", v |-> "up"] ELSE [ty |-> "double", v |-> IF n = "K" THEN k ELSE "1"]]
\* the stage: two stocks with equal records, bags 1 and 2 for either, two observers
Init == /\ SInit /\ hist = <<>> /\ ops = 0
Tickers == {"A", "B"}
Changes == {[op |-> "price", tk |-> t, v |-> v] : t \in Tickers, v \in {"1", "2", "-1"}} \cup {[op |-> "yield", tk |-> t, v |-> v] : t \in Tickers, v \in {"none", "0", "2"}}
           \cup {[op |-> "add", tk |-> t, S |-> "1", sig |-> "1", c |-> "none"] : t \in Tickers} \cup {[op |-> "rate", v |-> v] : v \in {"0", "1"}}
Set0 == /\ bags = None
        /\ bags' = [b \in {1, 2} |-> Start(IF b = 1 THEN "A" ELSE "B", "1")]
        /\ stock' = [t \in Tickers |-> [S |-> R("1"), sig |-> R("1"), c |-> "none"]]
        /\ watch' = [o \in {"p", "q"} |-> IF o = "p" THEN "A" ELSE "B"] /\ regs' = <<"p", "q">>
        /\ UNCHANGED <<rate, opts, said, ops>> /\ Note([e |-> "start"])
Bags ==
  \/ \E b \in {1, 2, 3}, n \in {"K", "x"}, v \in {<<"double", "1">>, <<"double", "2">>, <<"int", "1">>, <<"string", "s">>, <<"dir", "up">>} : Spend /\ SetIn(b, n, v[1], v[2]) /\ Note([e |-> "set", b |-> b, n |-> n, ty |-> v[1], v |-> v[2]])
  \/ \E a, b \in {1, 2, 3} : Spend /\ CopyBag(a, b) /\ Note([e |-> "copy", a |-> a, b |-> b])
  \/ \E b \in {1, 2, 3} : Spend /\ NewBag(b) /\ Note([e |-> "new", b |-> b])
Market0 ==
  \/ \E o \in Changes : Spend /\ Change(o) /\ Note([e |-> "change", o |-> o])
  \/ \E o \in {"p", "q"} : Spend /\ o \in DOMAIN watch /\ Unobserve(o) /\ Note([e |-> "unobserve", o |-> o])
Contracts ==
  \/ \E i \in {1, 2, 3}, f \in Facs, cp \in {"call", "put"}, b \in {1, 2} : Spend /\ Write(i, f, cp, b) /\ Note([e |-> "create", i |-> i, f |-> f, cp |-> cp, b |-> b])
  \/ \E i \in DOMAIN opts : Spend /\ Settle(i) /\ Note([e |-> "settle", i |-> i])
Questions ==
  \/ \E i \in DOMAIN opts, q \in {"r1", "r2"} : Spend /\ (\E a \in (IF Emit THEN {"a"} ELSE {"a", "b"}) : Answer(PriceQ(i, q), a)) /\ Note([e |-> "price", i |-> i, q |-> q])
  \/ \E t \in DOMAIN stock : Spend /\ Answer(SimQ(t, "s"), "a") /\ Note([e |-> "sim", t |-> t])
  \/ Emit /\ \E i \in DOMAIN opts, j \in DOMAIN opts : Spend /\ Ask /\ Note([e |-> "cmp", i |-> i, j |-> j])
  \/ Emit /\ \E i \in DOMAIN opts : Spend /\ Ask /\ Note([e |-> "print", i |-> i])
Anew == ~Emit /\ Mode = "ask" /\ Spend /\ Restart /\ Note([e |-> "restart"])
Next == Anew \/ Set0 \/ (bags # None /\ CASE Mode = "bags" -> Bags [] Mode = "ask" -> (Market0 \/ Contracts \/ Questions) [] OTHER -> (Bags \/ Market0 \/ Contracts \/ Questions))
Spec == Init /\ [][Next]_vars
Inert == [][AskInert /\ SaidStays]_vars
Complete == ~(Emit /\ ops = MaxOps) \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
