------------------------------ MODULE ModelsMC ------------------------------
(* Laws of the model dynamics: with the compensated drifts of Models, the    *)
(* expected growth of a step is exp((r-c)dt) for every law of draws, the     *)
(* expectations being summed as moment series; and paths are homogeneous in  *)
(* the initial price.                                                        *)
EXTENDS Models, TLC
CONSTANTS Kind, Dts, Sigs, Rs, Cs, Lams, Ps1, Ps2, Ps3
VARIABLES x, done
v == <<lv, x, done>>
K == 40
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN "1" ELSE RMul(n, Fact(n - 1))
ENormal(s2) == RSum([k \in 1..K |-> RDiv(RPow(Half(s2), k - 1), Fact(k - 1))])                  \* E exp(s z), s2 = s^2
EPoisson(l, m) == RMul(RExp(RNeg(l)), RSum([k \in 1..K |-> RDiv(RPow(Rnd(RMul(l, m)), k - 1), Fact(k - 1))]))
EExpo(s, eta) == RSum([k \in 1..70 |-> Rnd(RPow(RDiv(s, eta), k - 1))])                          \* E exp(s X), X exponential(eta)
RECURSIVE Rising(_, _)
Rising(a, k) == IF k = 0 THEN "1" ELSE RMul(RAdd(a, k - 1), Rising(a, k - 1))
EGamma(a, shape, scale) == RSum([k \in 1..K |-> Rnd(RDiv(RMul(RPow(RMul(a, scale), k - 1), Rising(shape, k - 1)), Fact(k - 1)))])
Par == CASE Kind = "gbm" -> [z |-> 0]
         [] Kind = "merton" -> [lam |-> x.lam, muJ |-> x.p1, sJ |-> x.p2]
         [] Kind = "kou"    -> [lam |-> x.lam, p |-> x.p3, e1 |-> x.p1, e2 |-> x.p2]
         [] Kind = "vg"     -> [nu |-> x.p1, th |-> x.p2]
         [] Kind = "heston" -> [kap |-> "1", th |-> "1/25", sv |-> x.p1, rho |-> x.p2, v0 |-> x.p3]
         [] Kind = "bates"  -> [kap |-> "1", th |-> "1/25", sv |-> "3/10", rho |-> "1/2", v0 |-> x.p3, lam |-> x.lam, muJ |-> x.p1, sJ |-> x.p2]
Q == [S |-> "100", sig |-> x.sig, c |-> x.c]
Mu == RMul(Drift(Kind, Par, Q, x.r), x.dt)
VolFac == CASE Kind \in {"heston", "bates"} -> RMul(RExp(RNeg(RMul(Half(Par.v0), x.dt))), ENormal(RMul(Par.v0, x.dt)))
            [] Kind = "vg" -> EGamma(RAdd(Par.th, Half(Sq(x.sig))), RDiv(x.dt, Par.nu), Par.nu)
            [] OTHER -> ENormal(RMul(Sq(x.sig), x.dt))
JumpFac == CASE Kind \in {"merton", "bates"} -> EPoisson(RMul(Par.lam, x.dt), RMul(RExp(Par.muJ), ENormal(Sq(Par.sJ))))
             [] Kind = "kou" -> EPoisson(RMul(Par.lam, x.dt), RAdd(RMul(Par.p, EExpo(1, Par.e1)), RMul(RSub(1, Par.p), EExpo("-1", Par.e2))))
             [] OTHER -> "1"
Martingale == done => RClose(RMul(RExp(Mu), RMul(VolFac, JumpFac)), RExp(RMul(RSub(x.r, Carry(Q)), x.dt)), "1e-10")
\* laws of the draws used by the expectations above are those drawn from
Draws == <<<<"1", "-1/2", "1/3", "2">>, <<"1", "2">>, <<"1/10", "1/5", "9/10">>, <<"1/5", "1/7", "1/9">>, <<"1/5", "1/4", "1/2">>>>
Homog == done => \A alt \in Alts(Kind) :
   LET ds == IF Kind = "vg" THEN <<Draws[1], <<"1/3", "1/8">>>> ELSE Draws
       sc == [s |-> "euler"]
       p1 == Path(Kind, Par, sc, Q, x.r, RMul(2, x.dt), 2, ds, alt)
       p2 == Path(Kind, Par, sc, [Q EXCEPT !.S = "200"], x.r, RMul(2, x.dt), 2, ds, alt)
   IN Len(p1) = 2 /\ \A i \in 1..2 : RLt(0, p1[i]) /\ RClose(RMul(2, p1[i]), p2[i], "1e-40")
LawsTotal == LET ls == Laws(Kind, Par, x.dt) IN Len(ls) >= 1 /\ ls[1] = StdNormal
Init == LInit /\ done = FALSE /\ x \in [dt : Dts, sig : Sigs, r : Rs, c : Cs, lam : Lams, p1 : Ps1, p2 : Ps2, p3 : Ps3]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<lv, x>>
Spec == Init /\ [][Next]_v
=============================================================================
