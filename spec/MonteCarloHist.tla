--------------------------- MODULE MonteCarloHist ---------------------------
(* Histories of one builder and two solvers: what a pricer and a solver use  *)
(* is what was last set.  Also the generator of the histories replayed.      *)
EXTENDS MonteCarlo, TLC, Json
CONSTANTS Kinds, MaxOps, Emit
VARIABLES kind, h
hv == <<mcv, kind, h>>
Fam(k) == IF k = "single" THEN "european" ELSE k
O(f, t) == [f |-> f, ticker |-> t, T |-> "1", B |-> "1", dir |-> "up", pay |-> [kind |-> "vanilla", cp |-> "call", k1 |-> "1", k2 |-> "2"]]
Init == /\ kind \in Kinds /\ h = <<>>
        /\ rates = [x \in {"sing", "m1"} |-> "0"] /\ stocks = [x \in {"sing", "m1"} |-> MNone]
        /\ opt = (1 :> O(Fam(kind), "A") @@ 2 :> O(Fam(kind), "B") @@ 3 :> O("other", "A"))
        /\ model = [m \in 1..2 |-> [tab |-> <<>>, cur |-> 0]]
        /\ bld = [b \in {1} |-> [kind |-> kind, opt |-> 0, mk |-> "sing", model |-> 0, reg |-> "r0"]]
        /\ prc = MNone /\ slv = [s \in 1..2 |-> [N |-> 1, p |-> 0]]
Do(e) == h' = Append(h, e) /\ kind' = kind
Fresh == Cardinality({k \in DOMAIN h : h[k].op = "build"}) + 1
Owned == {slv[s].p : s \in DOMAIN slv}
Used(p) == \E k \in DOMAIN h : h[k].op = "setpricer" /\ h[k].p = p
Next ==
  /\ Len(h) < MaxOps
  /\ \/ \E i \in 0..3 : SetOption(1, i) /\ Do([op |-> "setopt", i |-> i])
     \/ \E m \in 0..2 : SetModel(1, m) /\ Do([op |-> "setmodel", m |-> m])
     \/ \E k \in {"sing", "m1"} : SetMarket(1, k) /\ Do([op |-> "setmarket", mk |-> k])
     \/ kind = "american" /\ \E g \in {"r1", "r2"} : SetReg(1, g) /\ Do([op |-> "setreg", g |-> g])
     \/ Build(1, Fresh) /\ Do([op |-> "build", p |-> Fresh])
     \/ \E s \in 1..2, p \in DOMAIN prc \cup {0} : (p = 0 \/ ~Used(p)) /\ SetPricer(s, p) /\ Do([op |-> "setpricer", s |-> s, p |-> p])
     \/ \E s \in 1..2, n \in 1..2 : SetN(s, n) /\ Do([op |-> "setn", s |-> s, n |-> n])
     \/ \E s \in 1..2 : IF slv[s].p = 0 THEN UNCHANGED mcv /\ Do([op |-> "solve", s |-> s])
                        ELSE Consume(slv[s].p, slv[s].N) /\ Do([op |-> "solve", s |-> s])
     \/ \E k \in {"sing", "m1"}, q \in {"0", "1"} : SetRate(k, q) /\ Do([op |-> "rate", mk |-> k, q |-> q])
     \/ UNCHANGED mcv /\ Do([op |-> "spot"])
Spec == Init /\ [][Next]_hv
\* position of the last event before n satisfying the test, 0 if none
LastPos(n, T(_)) == LET c == {k \in 1..(n - 1) : T(h[k])} IN IF c = {} THEN 0 ELSE CHOOSE x \in c : \A y \in c : y <= x
PricerAsLastSet == \A n \in DOMAIN h : h[n].op = "build" /\ h[n].p \in DOMAIN prc =>
   LET q  == prc[h[n].p]
       po == LastPos(n, LAMBDA e : e.op = "setopt" /\ e.i \in {1, 2})
       pm == LastPos(n, LAMBDA e : e.op = "setmodel")
       pk == LastPos(n, LAMBDA e : e.op = "setmarket")
       pg == LastPos(n, LAMBDA e : e.op = "setreg")
   IN /\ po # 0 /\ q.o = h[po].i
      /\ q.model = (IF pm = 0 THEN 0 ELSE h[pm].m) /\ q.mk = (IF pk = 0 THEN "sing" ELSE h[pk].mk)
      /\ q.reg = (IF pg = 0 THEN "r0" ELSE h[pg].g)
NoOptionNoPricer == \A n \in DOMAIN h : h[n].op = "build" /\ LastPos(n, LAMBDA e : e.op = "setopt" /\ e.i \in {1, 2}) = 0 => h[n].p \notin DOMAIN prc
SolverAsLastSet == \A s \in DOMAIN slv : LET n == Len(h) + 1
       pp == LastPos(n, LAMBDA e : e.op = "setpricer" /\ e.s = s)
       pn == LastPos(n, LAMBDA e : e.op = "setn" /\ e.s = s)
   IN slv[s].p = (IF pp = 0 THEN 0 ELSE h[pp].p) /\ slv[s].N = (IF pn = 0 THEN 1 ELSE h[pn].n)
OneOwner == slv[1].p # 0 => slv[1].p # slv[2].p
Complete == Emit /\ Len(h) = MaxOps => PrintT(<<"HIST", ToJson([kind |-> kind, ops |-> h])>>)
=============================================================================
