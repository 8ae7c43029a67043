---------------------------- MODULE MonteCarloMC ----------------------------
(* Laws of the valuation rules, checked for every table of two paths over a  *)
(* small price set, every contract and rate.                                 *)
EXTENDS MonteCarlo, TLC
CONSTANTS Px, Steps, Ks, Rs
VARIABLES tab, k, r, done
all == <<mcv, tab, k, r, done>>
Opt(f, cp, B, dir) == [f |-> f, ticker |-> "A", T |-> "1", B |-> B, dir |-> dir,
                       pay |-> [kind |-> IF f = "floatlb" THEN "floating" ELSE "vanilla", cp |-> cp, k1 |-> k, k2 |-> 0]]
P(o) == PlainPrice(o, tab, 0, 2, r)
Cps == {"call", "put"}
Init == MCInit /\ tab \in [1..2 -> [1..Steps -> Px]] /\ k \in Ks /\ r \in Rs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<mcv, tab, k, r>>
Spec == Init /\ [][Next]_all
InOut    == done => \A cp \in Cps, B \in Ks, d \in {"up", "down"} : RClose(RAdd(P(Opt("knockin", cp, B, d)), P(Opt("knockout", cp, B, d))), P(Opt("european", cp, 0, "none")), "1e-40")
GeoArith == done => (RLe(P(Opt("geom", "call", 0, "none")), RAdd(P(Opt("arith", "call", 0, "none")), "1e-40")) /\ RLe(P(Opt("arith", "put", 0, "none")), RAdd(P(Opt("geom", "put", 0, "none")), "1e-40")))
LookDom  == done => \A cp \in Cps : RLe(P(Opt("european", cp, 0, "none")), P(Opt("fixedlb", cp, 0, "none"))) /\ RLe(0, P(Opt("floatlb", cp, 0, "none")))
ParityOK == done => RClose(RSub(P(Opt("european", "call", 0, "none")), P(Opt("european", "put", 0, "none"))),
                   RMul(Disc(r, 1), RSub(Mean(<<Last(tab[1]), Last(tab[2])>>), k)), "1e-40")
\* Exercising only at maturity is the European price; an American price never falls below that of never exercising when
\* the continuation is overestimated, and never exceeds the best exercise value of any path.
Amer(cp, g) == AmericanPrices(Opt("american", cp, 0, "none"), tab, g, r)
AmerLaw == done => \A cp \in Cps :
   /\ \A w \in Amer(cp, [kind |-> "fixed", c |-> <<"1000">>]) : RClose(w, P(Opt("european", cp, 0, "none")), "1e-40")
   /\ \A w \in Amer(cp, [kind |-> "mean"]) : RLe(0, w) /\ RLe(RSub(w, "1e-40"), RMul(RMax(1, Disc(r, 1)), RSeqMax([i \in 1..2 |-> RSeqMax([j \in 1..Steps |-> Pays(Opt("american", cp, 0, "none").pay, tab[i][j])])])))
   /\ \A w \in Amer(cp, [kind |-> "ls", n |-> 2]) : RLe(0, w)
=============================================================================
