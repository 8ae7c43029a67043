------------------------------ MODULE MarketMC ------------------------------
(* Exhaustive exploration of Market over a small universe, and generation   *)
(* of histories (programs) for the implementation.                          *)
EXTENDS Market, TLC, Json
CONSTANTS Tks, Obs, Hands, Prices, Sigmas, Yields, Rates, MaxOps, MaxRegs, MaxDepth, Emit
VARIABLES hist, ops
vars == <<mvars, hist, ops>>

Changes ==
  {[op |-> "add", tk |-> t, S |-> s, sig |-> g, c |-> c] : t \in Tks, s \in Prices, g \in Sigmas, c \in Yields}
  \cup {[op |-> "price", tk |-> t, v |-> v] : t \in Tks, v \in Prices}
  \cup {[op |-> "sigma", tk |-> t, v |-> v] : t \in Tks, v \in Sigmas}
  \cup {[op |-> "yield", tk |-> t, v |-> v] : t \in Tks, v \in Yields}
  \cup {[op |-> "rate", v |-> v] : v \in Rates}
  \cup {[op |-> "notify", tk |-> t] : t \in Tks \cup {"*"}}

Note(e)  == hist' = IF Emit THEN Append(hist, e) ELSE hist
Spend    == ops < MaxOps /\ ops' = ops + 1
Init == MInit /\ hist = <<>> /\ ops = 0
Next ==
  \/ \E o \in Changes : Spend /\ Len(frames) < MaxDepth /\ Begin(o) /\ Note([e |-> "change", o |-> o, d |-> Len(frames)])
  \/ \E x \in DOMAIN watch \cup DOMAIN ling : Deliver(x) /\ UNCHANGED ops /\ Note([e |-> "deliver", o |-> x, d |-> Len(frames)])
  \/ End /\ UNCHANGED ops /\ Note([e |-> "end", d |-> Len(frames)])
  \/ \E x \in Obs, t \in Tks : Spend /\ Create(x, t) /\ Note([e |-> "create", o |-> x, t |-> t, d |-> Len(frames)])
  \/ \E x \in DOMAIN watch : Spend /\ Len(regs) < MaxRegs /\ Register(x) /\ Note([e |-> "register", o |-> x, d |-> Len(frames)])
  \/ \E x \in DOMAIN watch : Spend /\ Drop(x) /\ Note([e |-> "drop", o |-> x, d |-> Len(frames)])
  \/ \E x \in Obs, t \in Tks, k \in {"1", "-1"} : x \notin DOMAIN watch \cup DOMAIN ling /\ Spend /\ Len(regs) < MaxRegs /\ MakeOption(x, t, k, "1")
                              /\ Note([e |-> "mkopt", o |-> x, t |-> t, k |-> k, d |-> Len(frames)])
  \/ \E h \in Hands, t \in Tks : Spend /\ Take(h, t) /\ Note([e |-> "take", h |-> h, t |-> t, d |-> Len(frames)])
Spec == Init /\ [][Next]_vars
\* Every pending notification can always be completed.
CanEnd == frames # <<>> => ENABLED (End \/ \E x \in DOMAIN watch : Deliver(x))
PropAllOrNothing == [][AllOrNothing]_vars
PropOneChange    == [][OneChange]_vars
\* Printing complete histories (used with Emit = TRUE, in simulation or bounded search)
Complete == ~(Emit /\ ops = MaxOps /\ frames = <<>>) \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
