-------------------------------- MODULE Terms --------------------------------
(* Contract terms: what the factories need and build, when two records, two  *)
(* contracts are the same, what a printed contract says.                     *)
EXTENDS Payoffs

(* ------------------------------ factories ------------------------------ *)
Factories == {"european", "digital", "ddigital", "american", "arith", "geom", "knockin", "knockout", "floatlb", "fixedlb"}
Needs(f)  == CASE f = "ddigital" -> {"ticker", "T", "K1", "K2"}
               [] f \in {"knockin", "knockout"} -> {"ticker", "T", "K", "B", "direction"}
               [] f = "floatlb" -> {"ticker", "T"}
               [] OTHER -> {"ticker", "T", "K"}
TypeOf(n) == CASE n = "ticker" -> "string" [] n = "direction" -> "dir" [] OTHER -> "double"
PayoffOf(f, cp, ps) ==
  CASE f = "digital"  -> [kind |-> "digital", cp |-> cp, k1 |-> ps["K"].v, k2 |-> 0]
    [] f = "ddigital" -> [kind |-> "ddigital", cp |-> "both", k1 |-> ps["K1"].v, k2 |-> ps["K2"].v]
    [] f = "floatlb"  -> [kind |-> "floating", cp |-> cp, k1 |-> 0, k2 |-> 0]
    [] OTHER          -> [kind |-> "vanilla", cp |-> cp, k1 |-> ps["K"].v, k2 |-> 0]
Creates(f, ps, known) ==
  /\ \A n \in Needs(f) : n \in DOMAIN ps /\ ps[n].ty = TypeOf(n)
  /\ ps["ticker"].v \in known
  /\ \A n \in Needs(f) \cap {"T", "K", "K1", "K2"} : RLe(0, ps[n].v)
OptionOf(f, cp, ps) == [f |-> f, ticker |-> ps["ticker"].v, T |-> ps["T"].v, pay |-> PayoffOf(f, cp, ps),
                        B |-> IF f \in {"knockin", "knockout"} THEN ps["B"].v ELSE 0,
                        dir |-> IF f \in {"knockin", "knockout"} THEN ps["direction"].v ELSE "none"]
(* ------------------------------ stock records -------------------------- *)
SameOpt(a, b) == IF a = "none" \/ b = "none" THEN a = b ELSE REq(a, b)
SameRecord(a, b) == REq(a.S, b.S) /\ REq(a.sig, b.sig) /\ SameOpt(a.c, b.c)

(* ------------------------------ whole contracts ------------------------ *)
CPut(f, k, v)  == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
CDel(f, k)     == [x \in DOMAIN f \ {k} |-> f[x]]
None           == [x \in {} |-> 0]
SameTerms(a, b, recA, recB) == REq(a.T, b.T) /\ SamePayoff(a.pay, b.pay) /\ SameRecord(recA, recB)
SameKind(a, b)              == a.f = b.f /\ a.dir = b.dir /\ REq(a.B, b.B)
(* What is printed: a set of [sec, lab, num, val]; num says that val is a number.  *)
ClassOf(f) == CASE f = "european" -> "EuropeanOption" [] f = "digital" -> "DigitalOption" [] f = "ddigital" -> "DoubleDigitalOption"
                [] f = "american" -> "AmericanOption" [] f = "arith" -> "ArithmeticAsianOption" [] f = "geom" -> "GeometricAsianOption"
                [] f = "knockin" -> "KnockInBarrierOption" [] f = "knockout" -> "KnockOutBarrierOption"
                [] f = "floatlb" -> "FloatingStrikeLookbackOption" [] f = "fixedlb" -> "FixedStrikeLookbackOption"
CpText(p)  == IF p.kind = "ddigital" THEN "DoubleDigital" ELSE IF p.cp = "call" THEN "Call" ELSE "Put"
Line(s, l, n, v) == [sec |-> s, lab |-> l, num |-> n, val |-> v]
PayoffLines(s, p) ==
  {Line(s, "Type", FALSE, CpText(p))} \cup
  (CASE p.kind = "floating" -> {}
     [] p.kind = "ddigital" -> {Line(s, "Lower Strike", TRUE, p.k1), Line(s, "Upper Strike", TRUE, p.k2)}
     [] OTHER -> {Line(s, "Strike", TRUE, p.k1)})
RecordLines(s, q) == {Line(s, "Price", TRUE, q.S), Line(s, "Volatility", TRUE, q.sig)} \cup (IF q.c = "none" THEN {} ELSE {Line(s, "Coupon", TRUE, q.c)})
OptionLines(o, q, r) ==
  {Line("Option", "Type", FALSE, ClassOf(o.f)), Line("Option", "Expiration", TRUE, o.T), Line("Stock", "Ticker", FALSE, o.ticker),
   Line("MarketData", "Risk Free Interest Rate", TRUE, r)} \cup PayoffLines("Payoff", o.pay) \cup RecordLines("Stock", q)
=============================================================================
