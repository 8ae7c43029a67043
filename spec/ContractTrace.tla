---------------------------- MODULE ContractTrace ----------------------------
(* Decides whether recorded uses of payoffs, factories and records are      *)
(* behaviours of Contract.                                                  *)
EXTENDS Contract, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos
\* one correctly rounded subtraction
Rounded(x, y) == IsNum(x) /\ RLe(RAbs(RSub(x, y)), RMul("0x1p-52", RAbs(y)))
Ok(b)         == IF b THEN "ok" ELSE "invalid_argument"
EvalOk(p, e)  == IF OneArg(p) THEN e.st = "ok" /\ Rounded(e.v, Pays(p, e.S)) ELSE e.st = "logic_error"
Eval2Ok(p, e) == IF ~OneArg(p) THEN e.st = "ok" /\ Rounded(e.v, Pays2(p, e.S, e.m)) ELSE e.st = "logic_error"
CpName(p)     == IF p.kind = "ddigital" THEN "both" ELSE p.cp
Described(o, d) ==
  /\ d.ticker = o.ticker /\ REq(d.T, o.T) /\ d.f = o.f
  /\ d.cp = CpName(o.pay)
  /\ \A i \in DOMAIN d.ev : EvalOk(o.pay, d.ev[i])
  /\ \A i \in DOMAIN d.ev2 : Eval2Ok(o.pay, d.ev2[i])
  /\ \A i \in DOMAIN d.act : d.act[i].b = Active(o, d.act[i].S)
Step ==
  LET e == Traces[tr].ev[pos] IN
  CASE e.e = "set"      -> SetParam(e.n, e.ty, e.v)
    [] e.e = "clear"    -> Clear
    [] e.e = "ticker"   -> AddTicker(e.t)
    [] e.e = "create"   -> Create(e.i, e.f, e.cp) /\ e.st = Ok(Creates(e.f, params, known))
                           /\ (e.st = "ok" => Described(opts'[e.i], e.d))
    [] e.e = "dropopt"  -> DropOption(e.i) /\ e.gone = TRUE
    [] e.e = "recheck"  -> e.i \in DOMAIN opts /\ Described(opts[e.i], e.d) /\ UNCHANGED cvars
    [] e.e = "cloneof"  -> CloneOf(e.i, e.j)
    [] e.e = "make"     -> Make(e.i, e.p) /\ e.st = Ok(ValidPayoff(e.p))
    [] e.e = "clone"    -> Clone(e.i, e.j)
    [] e.e = "destroy"  -> Destroy(e.i)
    [] e.e = "eval"     -> e.i \in DOMAIN pool /\ EvalOk(pool[e.i], e) /\ UNCHANGED cvars
    [] e.e = "eval2"    -> e.i \in DOMAIN pool /\ Eval2Ok(pool[e.i], e) /\ UNCHANGED cvars
    [] e.e = "cmp"      -> /\ e.i \in DOMAIN pool /\ e.j \in DOMAIN pool
                           /\ e.eq = SamePayoff(pool[e.i], pool[e.j]) /\ e.ne = ~e.eq /\ UNCHANGED cvars
    [] e.e = "rec"      -> MakeRec(e.i, [S |-> e.S, sig |-> e.sig, c |-> e.c])
    [] e.e = "cmprec"   -> /\ e.i \in DOMAIN recs /\ e.j \in DOMAIN recs
                           /\ e.eq = SameRecord(recs[e.i], recs[e.j]) /\ e.ne = ~e.eq /\ UNCHANGED cvars
    [] OTHER -> FALSE
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ CInit
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
=============================================================================
