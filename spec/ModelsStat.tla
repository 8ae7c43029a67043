----------------------------- MODULE ModelsStat -----------------------------
(* Sample statistics of real simulations against the forward of Models: by   *)
(* the martingale law (ModelsMC) the expected terminal price is              *)
(* S exp((r-c)T) whatever the model.                                         *)
EXTENDS Models, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
Fwd(c) == RMul(c.S, RExp(RMul(RSub(c.r, IF c.c = "none" THEN "0" ELSE c.c), c.T)))
SE(c)  == RDiv(c.sd, RSqrt(c.n))
Slack(c, k) == RAdd(RMul(k, SE(c)), RMul("1e-9", Fwd(c)))
Bad(c) ==
  CASE c.st # "ok" -> "simulation failed"
    [] ~(IsNum(c.mean) /\ IsNum(c.sd) /\ IsNum(c.meanp) /\ IsNum(c.call) /\ IsNum(c.put)) -> "not a number"
    [] ~RLe(RAbs(RSub(c.mean, Fwd(c))), Slack(c, 6)) -> "mean terminal price is not the forward"
    [] ~RLe(RAbs(RSub(c.meanp, Fwd(c))), Slack(c, 6)) -> "mean of the last path price is not the forward"
    [] ~RLe(RAbs(RSub(RSub(c.call, c.put), RMul(RExp(RNeg(RMul(c.r, c.T))), RSub(Fwd(c), c.K)))), RMul(RExp(RNeg(RMul(c.r, c.T))), Slack(c, "6.5"))) -> "put-call parity fails"
    [] OTHER -> "ok"
Init == i \in 1..Len(Cases) /\ st = "todo" /\ LInit
Next == /\ st = "todo" /\ st' = "done" /\ i' = i /\ UNCHANGED lv
        /\ Bad(Cases[i]) = "ok" \/ PrintT(<<"REJECT", Cases[i].id, Bad(Cases[i])>>)
=============================================================================
