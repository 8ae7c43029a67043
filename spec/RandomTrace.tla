----------------------------- MODULE RandomTrace -----------------------------
(* Recorded uses of the library's generators against Random.  A generator     *)
(* that seeds itself has a seed no other one has (recorded as a negative one).*)
EXTENDS Random, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos, memo           \* memo: pseudo-random draws seen, <<seed, laws drawn from, value>>
AbsNear(v, w, tol) == IsNum(v) /\ RLe(RAbs(RSub(v, w)), tol)
\* inverse distribution functions of the laws used with quasi-random generators: "rec" is a user-defined one, 2p+1
QuasiOK(law, v, p) == IF law = "rec" THEN AbsNear(v, RAdd(RMul(2, p), 1), "1e-11")
                      ELSE IsNum(v) /\ RLe(RPhi(RSub(v, "2e-8")), RAdd(p, "1e-11")) /\ RLe(RSub(p, "1e-11"), RPhi(RAdd(v, "2e-8")))
\* beyond the range computed here the point comes from the reference engine (e.ref)
InSpec(g, k) == g.small /\ g.dim <= MaxSobolDim
Point(e, g, k) == IF InSpec(g, k) THEN Uniform(g, k) ELSE e.ref
RefOK(e, g, k) == Assert(~InSpec(g, k) \/ AbsNear(e.ref, Uniform(g, k), "1e-11"), <<"reference engine and specification disagree", Traces[tr].id>>)
DrawOK(e) ==
  LET g == gens[e.g]
      k == g.n + 1
      hist == Append(g.hist, e.law)
  IN IF Quasi(g.kind) THEN RefOK(e, g, k) /\ QuasiOK(e.law, e.v, Point(e, g, k)) /\ memo' = memo
     ELSE /\ IsNum(e.v)
          /\ \A m \in memo : (m[1] = g.seed /\ m[2] = hist) => REq(m[3], e.v)
          /\ e.law = "snd" => \A m \in memo : (m[1] # g.seed /\ m[2] = hist) => ~REq(m[3], e.v)
          /\ memo' = memo \cup {<<g.seed, hist, e.v>>}
Step ==
  LET e == Traces[tr].ev[pos] IN
  CASE e.e = "new"  -> /\ e.st = "ok" /\ e.getdim = e.dim /\ memo' = memo
                       /\ gens' = [x \in DOMAIN gens \cup {e.g} |-> IF x = e.g THEN [kind |-> e.kind, dim |-> e.dim, seed |-> e.seed, small |-> e.small, hist |-> <<>>, n |-> 0] ELSE gens[x]]
    [] e.e = "copy" -> GCopy(e.g, e.to) /\ memo' = memo
    [] e.e = "draw" -> DrawOK(e) /\ GDraw(e.g, e.law)
    [] e.e = "skip" -> e.st = "ok" /\ GSkip(e.g, e.n) /\ memo' = memo
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ GInit /\ memo = {}
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
=============================================================================
