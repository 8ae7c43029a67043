------------------------------- MODULE Payoffs -------------------------------
(* What each contract pays.                                                  *)
EXTENDS Rat, Integers, Sequences, FiniteSets
(* ------------------------------ payoffs -------------------------------- *)
(* a payoff: [kind, cp, k1, k2]; kind "vanilla" "digital" "ddigital" "floating" *)
Pos(x)        == RMax(x, 0)
One(b)        == IF b THEN 1 ELSE 0
Pays(p, S)    ==
  CASE p.kind = "vanilla"  -> IF p.cp = "call" THEN Pos(RSub(S, p.k1)) ELSE Pos(RSub(p.k1, S))
    [] p.kind = "digital"  -> IF p.cp = "call" THEN One(RLt(p.k1, S)) ELSE One(RLt(S, p.k1))
    [] p.kind = "ddigital" -> One(RLe(p.k1, S) /\ RLe(S, p.k2))
Pays2(p, S, m) == IF p.cp = "call" THEN Pos(RSub(S, m)) ELSE Pos(RSub(m, S))
OneArg(p)     == p.kind # "floating"
SamePayoff(p, q) == /\ p.kind = q.kind
                    /\ p.kind # "ddigital" => p.cp = q.cp
                    /\ p.kind # "floating" => REq(p.k1, q.k1)
                    /\ p.kind = "ddigital" => REq(p.k2, q.k2)
ValidPayoff(p) == /\ p.kind # "floating" => RLe(0, p.k1)
                  /\ p.kind = "ddigital" => RLe(0, p.k2)

(* ------------------------------ barriers ------------------------------- *)
Hit(o, S)    == IF o.dir = "up" THEN RLe(o.B, S) ELSE RLe(S, o.B)
Active(o, S) == IF o.f = "knockin" THEN Hit(o, S) ELSE ~Hit(o, S)
=============================================================================
