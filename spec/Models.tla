------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Stock models.  A model draws from named laws; given the draws, the path *)
(* is a function of the market data in force when it is simulated.         *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, SequencesExt, FiniteSets, TLC

Plus(x)   == RMax(x, 0)
Rnd(x)    == RRound(x, 220)
Half(x)   == RDiv(x, 2)
Sq(x)     == RMul(x, x)
Carry(q)  == IF q.c = "none" THEN "0" ELSE q.c
Law(ty, a, b) == [ty |-> ty, a |-> a, b |-> b]
StdNormal == Law("normal", "0", "1")

(* ------------------- parameters and the laws drawn from ---------------- *)
(* par: merton [lam, muJ, sJ]; kou [lam, p, e1, e2]; vg [nu, th];          *)
(* heston [kap, th, sv, rho, v0]; bates: heston's and merton's             *)
ValidPar(kind, par) ==
  CASE kind = "gbm"    -> TRUE
    [] kind = "merton" -> RLt(0, par.sJ)
    [] kind = "kou"    -> RLe(0, par.p) /\ RLe(par.p, 1) /\ RLt(1, par.e1) /\ RLt(0, par.e2)
    [] kind = "vg"     -> RLt(0, par.nu)
    [] kind = "heston" -> RLe("-1", par.rho) /\ RLe(par.rho, 1) /\ RLe(0, par.v0) /\ RLe(0, par.sv)
    [] kind = "bates"  -> RLe("-1", par.rho) /\ RLe(par.rho, 1) /\ RLt(0, par.v0) /\ RLt(0, par.sv) /\ RLt(0, par.kap) /\ RLt(0, par.sJ)
\* how an invalid parameter is refused
Refusal(kind) == IF kind = "heston" THEN {"logic_error", "invalid_argument"} ELSE {"invalid_argument"}
Laws(kind, par, dt) ==
  CASE kind \in {"gbm", "heston"} -> <<StdNormal>>
    [] kind \in {"merton", "bates"} -> <<StdNormal, Law("poisson", RMul(par.lam, dt), "0"), Law("normal", par.muJ, par.sJ)>>
    [] kind = "kou" -> <<StdNormal, Law("poisson", RMul(par.lam, dt), "0"), Law("uniform", "0", "1"), Law("exp", par.e1, "0"), Law("exp", par.e2, "0")>>
    [] kind = "vg"  -> <<StdNormal, Law("gamma", RDiv(dt, par.nu), RDiv(1, par.nu))>>
\* expected relative jump E[e^J]
JumpMean(kind, par) ==
  IF kind = "kou" THEN RAdd(RMul(par.p, RDiv(par.e1, RSub(par.e1, 1))), RMul(RSub(1, par.p), RDiv(par.e2, RAdd(par.e2, 1))))
  ELSE RExp(RAdd(par.muJ, Half(Sq(par.sJ))))
Compensator(kind, par) == RMul(par.lam, RSub(JumpMean(kind, par), 1))
Omega(par, sig) == RDiv(RLog(RSub(RSub(1, RMul(par.th, par.nu)), Half(RMul(Sq(sig), par.nu)))), par.nu)

(* ------------------------------- jumps --------------------------------- *)
Before(cnt, t) == RSum([i \in 1..(t - 1) |-> cnt[i]])
ToInt(s, n)    == CHOOSE k \in 0..n : REq(s, k)
Counts(ds, steps) == TLCEval([t \in 1..steps |-> ToInt(ds[t], 1000)])
Upto(cnt, t)   == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(cnt, 1, t))
NormalJumps(cnt, js, t) == RSum([i \in 1..cnt[t] |-> js[Upto(cnt, t - 1) + i]])
\* Kou: jump number i (over the whole path) goes up when its uniform falls in a set of probability p
IsUp(par, side, u) == IF side = "low" THEN RLt(u, par.p) ELSE RLt(RSub(1, par.p), u)
Ups(par, side, us, n) == Cardinality({i \in 1..n : IsUp(par, side, us[i])})
KouJump(par, side, us, ups, downs, i) ==
  IF IsUp(par, side, us[i]) THEN ups[Ups(par, side, us, i)] ELSE RNeg(downs[i - Ups(par, side, us, i)])
KouJumps(par, side, cnt, us, ups, downs, t) == RSum([i \in 1..cnt[t] |-> KouJump(par, side, us, ups, downs, Upto(cnt, t - 1) + i)])

(* ------------------------- variance discretisation --------------------- *)
\* scheme: "euler", "milstein", or [a, b, c, d, e]: a user's own update
NextVar(scheme, par, V, dt, z) ==
  LET vp == Plus(V)
      eu == RAdd(V, RAdd(RMul(RMul(par.kap, RSub(par.th, vp)), dt), RMul(par.sv, RMul(RSqrt(Rnd(RMul(vp, dt))), z))))
  IN Rnd(CASE scheme.s = "euler" -> eu
           [] scheme.s = "milstein" -> RAdd(eu, RMul(RDiv(RMul(Sq(par.sv), dt), 4), RSub(Sq(z), 1)))
           [] scheme.s = "custom" -> RSum(<<RMul(scheme.a, V), RMul(scheme.b, RMul(par.kap, dt)), RMul(scheme.c, par.th), RMul(scheme.d, par.sv), RMul(scheme.e, z)>>))
\* Which of the two draws of a step drives what; correlation rho either way.
Roles == {"V1", "V2", "S1", "S2"}
ZPair(role, par, z1, z2) ==
  LET a == IF role \in {"V1", "S1"} THEN z1 ELSE z2
      b == IF role \in {"V1", "S1"} THEN z2 ELSE z1
      m == RAdd(RMul(par.rho, a), RMul(RSqrt(RSub(1, Sq(par.rho))), b))
  IN IF role \in {"V1", "V2"} THEN [V |-> a, S |-> m] ELSE [V |-> m, S |-> a]
VarPath(scheme, par, role, z, dt, steps) ==       \* variances at the start of each step
  LET z2 == TLCEval([t \in 1..(steps - 1) |-> ZPair(role, par, z[2 * t - 1], z[2 * t]).V])
  IN FoldLeft(LAMBDA vs, x : Append(vs, NextVar(scheme, par, vs[Len(vs)], dt, x)), <<R(par.v0)>>, z2)

(* ----------------------- log increment of each step -------------------- *)
\* q: market record [S, sig, c]; ds: the draws, one sequence per law; alt: the free choice left open (roles, Kou side)
Drift(kind, par, q, r) ==
  LET g == RSub(r, Carry(q)) IN
  CASE kind = "gbm" -> RSub(g, Half(Sq(q.sig)))
    [] kind \in {"merton", "kou"} -> RSub(RSub(g, Half(Sq(q.sig))), Compensator(kind, par))
    [] kind = "vg" -> RAdd(g, Omega(par, q.sig))
    [] kind = "heston" -> g
    [] kind = "bates" -> RSub(g, Compensator(kind, par))
Alts(kind) == CASE kind \in {"heston", "bates"} -> Roles [] kind = "kou" -> {"low", "high"} [] OTHER -> {"-"}
Needed(kind, steps) == CASE kind \in {"heston", "bates"} -> 2 * steps [] OTHER -> steps
Incr(kind, par, scheme, q, r, T, steps, ds, alt) ==
  LET dt  == RDiv(T, steps)
      sdt == RSqrt(dt)
      mu  == Rnd(RMul(Drift(kind, par, q, r), dt))
      cnt == IF kind \in {"merton", "kou", "bates"} THEN Counts(ds[2], steps) ELSE <<>>
      sd  == RMul(q.sig, sdt)
  IN CASE kind = "gbm"    -> [t \in 1..steps |-> Rnd(RAdd(mu, RMul(sd, ds[1][t])))]
       [] kind = "merton" -> [t \in 1..steps |-> Rnd(RSum(<<mu, RMul(sd, ds[1][t]), NormalJumps(cnt, ds[3], t)>>))]
       [] kind = "kou"    -> [t \in 1..steps |-> Rnd(RSum(<<mu, RMul(sd, ds[1][t]), KouJumps(par, alt, cnt, ds[3], ds[4], ds[5], t)>>))]
       [] kind = "vg"     -> [t \in 1..steps |-> Rnd(RSum(<<mu, RMul(par.th, ds[2][t]), RMul(q.sig, RMul(RSqrt(ds[2][t]), ds[1][t]))>>))]
       [] kind \in {"heston", "bates"} ->
            LET vs == VarPath(scheme, par, alt, ds[1], dt, steps)
            IN [t \in 1..steps |-> Rnd(RSum(<<mu, RNeg(RMul(Half(Plus(vs[t])), dt)), RMul(RSqrt(Rnd(RMul(Plus(vs[t]), dt))), ZPair(alt, par, ds[1][2 * t - 1], ds[1][2 * t]).S),
                                              IF kind = "bates" THEN NormalJumps(cnt, ds[3], t) ELSE "0">>))]
Compound(S, xs) == FoldLeft(LAMBDA p, x : Append(p, Rnd(RMul(IF p = <<>> THEN S ELSE p[Len(p)], RExp(x)))), <<>>, xs)
Path(kind, par, scheme, q, r, T, steps, ds, alt) == Compound(q.S, TLCEval(Incr(kind, par, scheme, q, r, T, steps, ds, alt)))
\* enough draws of every kind were made
Enough(kind, par, steps, ds, alt) ==
  /\ Len(ds[1]) >= Needed(kind, steps)
  /\ kind = "vg" => Len(ds[2]) >= steps
  /\ kind \in {"merton", "kou", "bates"} =>
       /\ Len(ds[2]) >= steps
       /\ LET n == Upto(Counts(ds[2], steps), steps) IN
          /\ Len(ds[3]) >= n
          /\ kind = "kou" => LET u == Ups(par, alt, ds[3], n) IN Len(ds[4]) >= u /\ Len(ds[5]) >= n - u
\* Brownian bridge back from Sn at tn to time t, starting value S at 0
Bridge(q, Sn, t, tn, z) ==
  RMul(q.S, RExp(Rnd(RAdd(RMul(RDiv(t, tn), RLog(RDiv(Sn, q.S))), RMul(RMul(q.sig, RSqrt(RDiv(RMul(t, RSub(tn, t)), tn))), z)))))

(* ------------------------- models in a live market --------------------- *)
\* Market data come from the library's shared instance or from a source of the user's own; a model reads the one it was made with.
Sources == {"sing", "own"}
VARIABLES rate, stock, mdl      \* rate of each source; records by <<source, ticker>>; models
lv == <<rate, stock, mdl>>
LPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
LInit == rate = [k \in Sources |-> "3602879701896397/72057594037927936"] /\ stock = [x \in {} |-> 0] /\ mdl = [x \in {} |-> 0]
ValidRecord(q) == IsNum(q.S) /\ RLt(0, q.S) /\ IsNum(q.sig) /\ RLe(0, q.sig) /\ (q.c = "none" \/ (IsNum(q.c) /\ RLe(0, q.c) /\ RLe(q.c, 1)))
LRate(k, r)     == rate' = [rate EXCEPT ![k] = r] /\ UNCHANGED <<stock, mdl>>
LRegister(k, t, q) == (IF ValidRecord(q) THEN stock' = LPut(stock, <<k, t>>, q) ELSE UNCHANGED stock) /\ UNCHANGED <<rate, mdl>>
Changed(k, t, f, v) == [stock[<<k, t>>] EXCEPT ![f] = v]
UpdOK(k, t, f, v) == <<k, t>> \in DOMAIN stock /\ ValidRecord(Changed(k, t, f, v))
LUpdate(k, t, f, v) == (IF UpdOK(k, t, f, v) THEN stock' = [stock EXCEPT ![<<k, t>>] = Changed(k, t, f, v)] ELSE UNCHANGED stock) /\ UNCHANGED <<rate, mdl>>
MakeOK(kind, par, k, t) == <<k, t>> \in DOMAIN stock /\ ValidPar(kind, par)
LModel(m, kind, par, scheme, k, t, steps) ==
  /\ IF MakeOK(kind, par, k, t) THEN mdl' = LPut(mdl, m, [kind |-> kind, par |-> par, scheme |-> scheme, k |-> k, t |-> t, steps |-> steps]) ELSE UNCHANGED mdl
  /\ UNCHANGED <<rate, stock>>
RecordOf(m) == stock[<<mdl[m].k, mdl[m].t>>]
PathOf(m, T, ds, alt) == LET x == mdl[m] IN Path(x.kind, x.par, x.scheme, RecordOf(m), rate[x.k], T, x.steps, ds, alt)
=============================================================================
