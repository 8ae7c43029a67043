--------------------------- MODULE MonteCarloTrace ---------------------------
(* Recorded uses of the Monte Carlo component against MonteCarlo.            *)
EXTENDS MonteCarlo, TLC, Json, IOUtils
CONSTANT Tol            \* relative tolerance on prices
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos
Scale(p) == LET m == prc[p].model IN IF m = 0 THEN 1000 ELSE RSeqMax([k \in DOMAIN model[m].tab |-> RSeqMax(model[m].tab[k])])
Near(v, e, p) == /\ IsNum(v)
                 /\ RLe(RAbs(RSub(v, e)), RAdd(RMul(Tol, RAbs(e)), RMul(RMul(Tol, "1e-3"), Scale(p))))
Priced(p, N, e) ==
  /\ e.st = "ok"
  /\ LET ws == Prices(p, N) IN IF ws = {} THEN IsNum(e.v) ELSE \E w \in ws : Near(e.v, w, p)
  \* exactly N paths of this pricer's model and none of another's, for the option's own maturity
  /\ \A k \in DOMAIN e.used : e.used[k].n = (IF e.used[k].m = prc[p].model THEN N ELSE 0)
  /\ \A k \in DOMAIN e.mats : REq(e.mats[k], opt[prc[p].o].T)
  /\ Consume(p, N)
OptOf(d) == [f |-> d.f, ticker |-> d.ticker, T |-> d.T, B |-> d.B, dir |-> d.dir,
             pay |-> [kind |-> CASE d.f = "digital" -> "digital" [] d.f = "ddigital" -> "ddigital" [] d.f = "floatlb" -> "floating" [] OTHER -> "vanilla",
                      cp |-> d.cp, k1 |-> d.k1, k2 |-> d.k2]]
Step ==
  LET e == Traces[tr].ev[pos] IN
  CASE e.e = "rate"    -> SetRate(e.mk, R(e.r))
    [] e.e = "stock"   -> SetStock(e.mk, e.t, [S |-> e.S, sig |-> e.sig, c |-> e.c])
    [] e.e = "opt"     -> NewOption(e.i, OptOf(e.o))
    [] e.e \in {"model", "bare"} -> NewModel(e.m, e.tab)
    [] e.e = "builder" -> NewBuilder(e.b, e.kind)
    [] e.e = "setopt"  -> e.st = (IF Accepted(e.b, e.i) THEN "ok" ELSE "invalid_argument") /\ SetOption(e.b, e.i)
    [] e.e = "setmodel" -> SetModel(e.b, e.m)
    [] e.e = "setmarket" -> SetMarket(e.b, e.mk)
    [] e.e = "setreg"  -> SetReg(e.b, e.reg)
    [] e.e = "build"   -> e.st = (IF CanBuild(e.b) THEN "ok" ELSE "logic_error") /\ Build(e.b, e.p)
    [] e.e = "solver"  -> NewSolver(e.s, e.N)
    [] e.e = "setn"    -> SetN(e.s, e.N)
    [] e.e = "setpricer" -> SetPricer(e.s, e.p)
    [] e.e = "solve"   -> IF slv[e.s].p = 0 THEN e.st = "logic_error" /\ UNCHANGED mcv
                          ELSE Priced(slv[e.s].p, slv[e.s].N, e)
    [] e.e = "price"   -> Priced(e.p, e.N, e)
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ MCInit
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
=============================================================================
