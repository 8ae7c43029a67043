----------------------------- MODULE MonteCarlo -----------------------------
(***************************************************************************)
(* Monte Carlo pricing: markets, options, stock models (as tables of paths *)
(* they will produce, consumed in order), builders, pricers and solvers.   *)
(***************************************************************************)
EXTENDS Payoffs, Lin

(* ------------------------- value of one path --------------------------- *)
Last(p)       == p[Len(p)]
GeoMean(p)    == RExp(Mean([i \in DOMAIN p |-> RLog(p[i])]))
PathValue(o, p) ==
  CASE o.f \in {"european", "digital", "ddigital", "american"} -> Pays(o.pay, Last(p))
    [] o.f = "arith"    -> Pays(o.pay, Mean(p))
    [] o.f = "geom"     -> Pays(o.pay, GeoMean(p))
    [] o.f = "floatlb"  -> Pays2(o.pay, Last(p), IF o.pay.cp = "call" THEN RSeqMin(p) ELSE RSeqMax(p))
    [] o.f = "fixedlb"  -> Pays(o.pay, IF o.pay.cp = "call" THEN RSeqMax(p) ELSE RSeqMin(p))
    [] o.f = "knockin"  -> IF \E i \in DOMAIN p : Hit(o, p[i]) THEN Pays(o.pay, Last(p)) ELSE "0"
    [] o.f = "knockout" -> IF \E i \in DOMAIN p : Hit(o, p[i]) THEN "0" ELSE Pays(o.pay, Last(p))

Disc(r, t)    == RExp(RNeg(RMul(r, t)))
\* N paths from a table that is produced cyclically, starting after cur of them
PathAt(tab, cur, i) == tab[((cur + i - 1) % Len(tab)) + 1]
MeanValue(o, tab, cur, N) ==
  LET pv  == [k \in DOMAIN tab |-> PathValue(o, tab[k])]
      rem == [i \in 1..(N % Len(tab)) |-> PathAt(pv, cur, i)]
  IN RDiv(RAdd(RMul(N \div Len(tab), RSum(pv)), RSum(rem)), N)
PlainPrice(o, tab, cur, N, r) == RMul(Disc(r, o.T), MeanValue(o, tab, cur, N))

(* ------------------------- Longstaff-Schwartz -------------------------- *)
(* reg: [kind |-> "mean"], [kind |-> "fixed", c |-> coefficients], [kind |-> "ls", n |-> monomials] *)
Continuation(reg, xs, ys) ==
  CASE reg.kind = "mean"  -> [k \in DOMAIN xs |-> Mean(ys)]
    [] reg.kind = "fixed" -> [k \in DOMAIN xs |-> RSum([q \in DOMAIN reg.c |-> RMul(reg.c[q], RPow(xs[k], q - 1))])]
    [] reg.kind = "ls"    -> Fitted([k \in DOMAIN xs |-> [q \in 1..reg.n |-> RPow(xs[k], q - 1)]], ys)
RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SetToSeqAsc(s \ {m})
\* One date: the value vectors that may result from v.  Where exercise and continuation value agree to rounding,
\* both decisions are possible; where they are equal for certain, the path is not exercised.
AtDate(o, paths, reg, d, j, v) ==
  LET ex  == [i \in DOMAIN paths |-> Pays(o.pay, paths[i][j])]
      dv  == [i \in DOMAIN paths |-> RRound(RMul(d, v[i]), 220)]
      itm == SetToSeqAsc({i \in DOMAIN paths : RLt(0, ex[i])})
  IN IF itm = <<>> THEN {dv}
     ELSE LET cont == Continuation(reg, [k \in DOMAIN itm |-> paths[itm[k]][j]], [k \in DOMAIN itm |-> dv[itm[k]]])
              sure(k) == reg.kind = "fixed" /\ Len(reg.c) = 1 /\ REq(cont[k], ex[itm[k]])   \* nothing is rounded there
              ties == {k \in DOMAIN itm : RClose(cont[k], ex[itm[k]], "1e-7") /\ ~sure(k)}
              yes  == {itm[k] : k \in {q \in DOMAIN itm \ ties : RLt(cont[q], ex[itm[q]])}}
          IN IF Cardinality(ties) > 4 THEN {}
             ELSE {[i \in DOMAIN paths |-> IF i \in yes \/ \E k \in z : itm[k] = i THEN R(ex[i]) ELSE dv[i]] : z \in SUBSET ties}
\* The possible prices; {} when too many ties leave the price open.
RECURSIVE Induct(_, _, _, _, _, _)
Induct(o, paths, reg, d, j, V) ==
  IF j = 0 THEN {RMul(d, Mean(v)) : v \in V}
  ELSE LET W == {AtDate(o, paths, reg, d, j, v) : v \in V}
       IN IF {} \in W \/ Cardinality(V) > 40 THEN {} ELSE Induct(o, paths, reg, d, j - 1, UNION W)
AmericanPrices(o, paths, reg, r) ==
  LET m == Len(paths[1])
      d == Disc(r, RDiv(o.T, m))
  IN Induct(o, paths, reg, d, m - 1, {[i \in DOMAIN paths |-> R(Pays(o.pay, paths[i][m]))]})

(* ------------------------- components ---------------------------------- *)
VARIABLES rates,    \* market -> rate ("sing" is the shared instance, others are injected)
          stocks,   \* market -> ticker -> [S, sig, c]
          opt,      \* options
          model,    \* stock models: [steps, tab, cur]
          bld,      \* builders: [kind, opt, mk, model, reg]; opt, model = 0 when not set
          prc,      \* pricers
          slv       \* solvers: [N, p]
mcv == <<rates, stocks, opt, model, bld, prc, slv>>
MPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MNone == [x \in {} |-> 0]
MCInit == /\ rates = [x \in {"sing"} |-> R("0x1.999999999999ap-5")] /\ stocks = [x \in {"sing"} |-> MNone]
          /\ opt = MNone /\ model = MNone /\ bld = MNone /\ prc = MNone /\ slv = MNone

Builds(kind, f) == CASE kind = "single" -> f \in {"european", "digital", "ddigital"} [] OTHER -> kind = f
DefaultReg  == [kind |-> "ls", n |-> 3]
DefaultSteps == 52
StockOf(mk, t) == IF t \in DOMAIN stocks[mk] THEN stocks[mk][t] ELSE stocks[mk]["*"]

SetRate(mk, r)  == rates' = MPut(rates, mk, r) /\ UNCHANGED <<stocks, opt, model, bld, prc, slv>>
SetStock(mk, t, q) == /\ stocks' = MPut(stocks, mk, MPut(IF mk \in DOMAIN stocks THEN stocks[mk] ELSE MNone, t, q))
                      /\ UNCHANGED <<rates, opt, model, bld, prc, slv>>
NewOption(i, o) == opt' = MPut(opt, i, o) /\ UNCHANGED <<rates, stocks, model, bld, prc, slv>>
NewModel(m, tab) == model' = MPut(model, m, [tab |-> tab, cur |-> 0]) /\ UNCHANGED <<rates, stocks, opt, bld, prc, slv>>
NewBuilder(b, k) == /\ bld' = MPut(bld, b, [kind |-> k, opt |-> 0, mk |-> "sing", model |-> 0, reg |-> DefaultReg])
                    /\ UNCHANGED <<rates, stocks, opt, model, prc, slv>>
\* An option of another kind (i = 0: none) is refused; what was set before may or may not be forgotten then.
Accepted(b, i)  == i # 0 /\ Builds(bld[b].kind, opt[i].f)
SetOption(b, i) == /\ \/ Accepted(b, i) /\ bld' = [bld EXCEPT ![b].opt = i]
                      \/ ~Accepted(b, i) /\ bld' = [bld EXCEPT ![b].opt = 0]
                      \/ ~Accepted(b, i) /\ bld' = bld
                   /\ UNCHANGED <<rates, stocks, opt, model, prc, slv>>
SetModel(b, m)  == bld' = [bld EXCEPT ![b].model = m] /\ UNCHANGED <<rates, stocks, opt, model, prc, slv>>
SetMarket(b, k) == bld' = [bld EXCEPT ![b].mk = k] /\ UNCHANGED <<rates, stocks, opt, model, prc, slv>>
SetReg(b, g)    == bld' = [bld EXCEPT ![b].reg = g] /\ UNCHANGED <<rates, stocks, opt, model, prc, slv>>
CanBuild(b)     == bld[b].opt # 0
Build(b, p)     == /\ IF CanBuild(b) THEN prc' = MPut(prc, p, [o |-> bld[b].opt, mk |-> bld[b].mk, model |-> bld[b].model, reg |-> bld[b].reg]) ELSE UNCHANGED prc
                   /\ UNCHANGED <<rates, stocks, opt, model, bld, slv>>
NewSolver(s, N) == slv' = MPut(slv, s, [N |-> N, p |-> 0]) /\ UNCHANGED <<rates, stocks, opt, model, bld, prc>>
SetN(s, N)      == slv' = [slv EXCEPT ![s].N = N] /\ UNCHANGED <<rates, stocks, opt, model, bld, prc>>
SetPricer(s, p) == slv' = [slv EXCEPT ![s].p = p] /\ UNCHANGED <<rates, stocks, opt, model, bld, prc>>

\* The path of the default model when the volatility is zero
CalmPath(mk, o) == LET q == StockOf(mk, o.ticker)
                       g == RSub(rates[mk], IF q.c = "none" THEN 0 ELSE q.c)
                   IN [j \in 1..DefaultSteps |-> RRound(RMul(q.S, RExp(RMul(g, RDiv(RMul(o.T, j), DefaultSteps)))), 220)]
\* The prices pricer p may report for N paths now
Prices(p, N) ==
  LET q   == prc[p]
      o   == opt[q.o]
      tab == IF q.model = 0 THEN <<CalmPath(q.mk, o)>> ELSE model[q.model].tab
      cur == IF q.model = 0 THEN 0 ELSE model[q.model].cur
  IN IF o.f = "american" THEN AmericanPrices(o, [i \in 1..N |-> PathAt(tab, cur, i)], q.reg, rates[q.mk])
     ELSE {PlainPrice(o, tab, cur, N, rates[q.mk])}
Consume(p, N) == /\ IF prc[p].model = 0 THEN UNCHANGED model ELSE model' = [model EXCEPT ![prc[p].model].cur = @ + N]
                 /\ UNCHANGED <<rates, stocks, opt, bld, prc, slv>>
=============================================================================
