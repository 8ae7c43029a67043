------------------------------ MODULE RatTest ------------------------------
(* Laws the Rat overrides must satisfy; checked by every setup.             *)
EXTENDS Rat, TLC, Integers, Sequences
Xs == {"0", "1", "-1", "1/3", "-7/5", "0.05", "0x1.999999999999ap-4", "12", "-100/7", "2.5"}
Ps == {x \in Xs : RLt(0, x)}
Tiny == "1e-45"
ASSUME \A x \in Xs, y \in Xs : RAdd(x, y) = RAdd(y, x) /\ RSub(RAdd(x, y), y) = R(x)
ASSUME \A x \in Xs, y \in Xs, z \in Xs : RMul(x, RAdd(y, z)) = RAdd(RMul(x, y), RMul(x, z))
ASSUME \A x \in Xs, y \in Ps : RMul(RDiv(x, y), y) = R(x)
ASSUME \A x \in Xs, y \in Xs : RLt(x, y) <=> RLt(RSub(x, y), 0)
ASSUME \A x \in Xs, y \in Xs : RClose(RExp(RAdd(x, y)), RMul(RExp(x), RExp(y)), Tiny)
ASSUME \A x \in Ps : RClose(RExp(RLog(x)), x, Tiny) /\ RClose(RLog(RExp(x)), x, Tiny)
ASSUME \A x \in Ps : RClose(RMul(RSqrt(x), RSqrt(x)), x, Tiny)
ASSUME RSqrt("9/16") = "3/4"
ASSUME \A x \in Xs : RClose(RAdd(RPhi(x), RPhi(RNeg(x))), 1, Tiny)
ASSUME RClose(RPhi("1.959963984540054235524594430520551527955550"), "0.975", "1e-38")
ASSUME RClose(RPhi("3"), "0.998650101968369905473348185232300", "1e-30")
ASSUME RClose(RExp("1"), "2.71828182845904523536028747135266249775724709369995", Tiny)
ASSUME RClose(RLog("10"), "2.30258509299404568401799145468436420760110148862877", Tiny)
ASSUME RSum(<<"1/2", "1/3", "1/6">>) = "1" /\ RDot(<<"1", "2">>, <<"3", "4">>) = "11"
ASSUME RSeqMax(<<"1/2", "-3", "0.75">>) = "3/4" /\ RSeqMin(<<"1/2", "-3", "0.75">>) = "-3"
ASSUME ~IsNum("nan") /\ ~IsNum("-inf") /\ IsNum("-1/2") /\ ~RClose("nan", "1", "1")
ASSUME R("0x1.999999999999ap-4") = "3602879701896397/36028797018963968"
ASSUME \A x \in Xs : RMul(x, 0) = "0" /\ RSub(x, x) = "0" /\ RDiv(RSub(x, x), 3) = "0" /\ RRound(RMul(RSub(x, x), "1/8"), 20) = "0" /\ RMul("1/8", RSub(x, x)) = "0"
ASSUME PrintT("RATTEST OK")
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
