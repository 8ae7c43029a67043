----------------------------- MODULE SystemTrace -----------------------------
(* Decides whether recorded sessions with the library are behaviours of      *)
(* System.  Focus selects the observations that are judged: "bags",          *)
(* "equal", "print", "answer", "still".                                      *)
EXTENDS System, TLC, Json, IOUtils, SequencesExt
CONSTANT Focus
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, pos,
          mark     \* what was alive at the last "mark" event
On(x)         == x \in Focus
Num(x)        == IF IsNum(x) THEN R(x) ELSE x
SameV(ty, a, b) == IF ty = "double" THEN Num(a) = Num(b) ELSE a = b
SameRec(a, q) == Num(a.S) = q.S /\ Num(a.sig) = q.sig /\ Num(a.c) = q.c
SnapOk(s, st, rt) == /\ Num(s.rate) = rt
                     /\ \A t \in DOMAIN s.stock : IF t \in DOMAIN st THEN SameRec(s.stock[t], st[t]) ELSE s.stock[t].S = "absent"
Rounded(x, y) == IsNum(x) /\ RLe(RAbs(RSub(x, y)), RMul("0x1p-52", RAbs(y)))
Described(o, d) ==
  /\ d.ticker = o.ticker /\ REq(d.T, o.T) /\ d.f = o.f
  /\ \A k \in DOMAIN d.ev : d.ev[k].st = "ok" /\ Rounded(d.ev[k].v, IF OneArg(o.pay) THEN Pays(o.pay, d.ev[k].S) ELSE Pays2(o.pay, d.ev[k].S, 100))
  /\ \A k \in DOMAIN d.act : d.act[k].b = Active(o, d.act[k].S)
\* the number shown is v to the given number of significant digits
Shows(x, v, digits) == IsNum(x) /\ RLe(RMul(2, RAbs(RSub(x, v))), RMul(RDiv(10, RPow(10, digits)), RAbs(v)))
Matches(k, l, digits) == k.sec = l.sec /\ k.lab = l.lab /\ IF l.num THEN Shows(k.x, l.val, digits) ELSE k.txt = l.val
PrintOk(e, exp) == /\ e.st = "ok" /\ e.kept = TRUE
                   /\ Len(e.lines) = Cardinality(exp)
                   /\ \A l \in exp : Cardinality({k \in DOMAIN e.lines : Matches(e.lines[k], l, e.digits)}) = 1
ToldOk(t, o)  == /\ \A x \in DOMAIN Due(o) : x \in DOMAIN t /\ t[x] >= Due(o)[x]
                 /\ \A x \in DOMAIN t : t[x] <= M!Get(Due(o), x) + M!Get(MayBe(o), x)
Free(e)       == e.what = "stock" \/ e.i \in DOMAIN opts
PrintStep(e)  == IF e.what = "stock" THEN e.t \in DOMAIN stock /\ PrintOk(e, RecordLines("", stock[e.t]))
                 ELSE /\ e.i \in DOMAIN opts
                      /\ PrintOk(e, IF e.what = "option" THEN Lines(e.i) ELSE PayoffLines("", opts[e.i].pay))
\* answers of requests served at the same time: each as if served alone
Jobs(e)       == [k \in DOMAIN e.jobs |-> [q |-> PriceQ(e.jobs[k].i, e.jobs[k].req), a |-> <<e.jobs[k].st, e.jobs[k].v>>]]
ParStep(e)    ==
  \E js \in {Jobs(e)} :
    /\ \A k \in DOMAIN js : /\ js[k].q \in DOMAIN said => said[js[k].q] = js[k].a
                            /\ \A m \in DOMAIN js : js[m].q = js[k].q => js[m].a = js[k].a
    /\ said' = [q \in DOMAIN said \cup {js[k].q : k \in DOMAIN js} |-> IF q \in DOMAIN said THEN said[q] ELSE js[CHOOSE k \in DOMAIN js : js[k].q = q].a]
Step(e) ==
  CASE e.e = "set"     -> SetIn(e.b, e.n, e.ty, IF e.ty = "double" THEN Num(e.v) ELSE e.v)
    [] e.e = "copy"    -> CopyBag(e.a, e.b)
    [] e.e = "new"     -> NewBag(e.b)
    [] e.e = "get"     -> /\ On("bags") => /\ e.has = Has(e.b, e.n)
                                           /\ e.st = (IF Gives(e.b, e.n, e.ty) THEN "ok" ELSE "invalid_argument")
                                           /\ Gives(e.b, e.n, e.ty) => SameV(e.ty, e.v, Bag(e.b)[e.n].v)
                          /\ Ask
    [] e.e = "change"  -> Change(e.o) /\ (On("still") => e.st = (IF M!Accepts(e.o) THEN "ok" ELSE "invalid_argument"))
    [] e.e = "observe" -> Observe(e.o, e.t)
    [] e.e = "unobserve" -> Unobserve(e.o)
    [] e.e = "create"  -> Write(e.i, e.f, e.cp, e.b) /\ e.st = (IF Made(e.i, e.f, e.cp, e.b) THEN "ok" ELSE "invalid_argument")
    [] e.e = "settle"  -> Settle(e.i)
    [] e.e = "cmp"     -> /\ e.i \in DOMAIN opts /\ e.j \in DOMAIN opts /\ Ask
                          /\ On("equal") => /\ e.eq = e.qe /\ e.ne = ~e.eq /\ e.en = ~e.eq
                                            /\ IF SameKind(opts[e.i], opts[e.j]) THEN e.eq = EqualNow(e.i, e.j) ELSE e.eq => EqualNow(e.i, e.j)
    [] e.e = "print"   -> (On("print") => PrintStep(e)) /\ Ask
    [] e.e = "price"   -> IF On("answer") THEN e.i \in DOMAIN opts /\ Answer(PriceQ(e.i, e.req), <<e.st, e.v>>) ELSE Ask
    [] e.e = "sim"     -> IF On("answer") THEN e.t \in DOMAIN stock /\ Answer(SimQ(e.t, e.req), <<e.st, e.out>>) ELSE Ask
    [] e.e = "par"     -> IF On("answer") THEN ParStep(e) /\ UNCHANGED <<bags, rate, stock, watch, regs, opts>> ELSE Ask
    [] e.e = "toil"    -> Ask               \* an answer of a pricer in use for long
    [] e.e = "mark"    -> Ask
    \* the round just played ended where it began (since the mark), and was then repeated e.n times
    [] e.e = "soak"    -> (On("held") => (mark = Alive /\ e.times >= 100 /\ Holds(e.from, e.to))) /\ Ask
    [] e.e = "restart" -> Restart
    [] OTHER -> FALSE
Still(e) ==
  On("still") =>
    /\ SnapOk(e.snap, stock', rate')
    /\ IF e.e = "change" THEN ToldOk(e.told, e.o) ELSE DOMAIN e.told = {}
    /\ \A k \in DOMAIN e.alive : e.alive[k].i \in DOMAIN opts' /\ Described(opts'[e.alive[k].i], e.alive[k].d)
    /\ e.still => Len(e.alive) = Cardinality(DOMAIN opts')
TInit == tr \in DOMAIN Traces /\ pos = 1 /\ SInit /\ mark = Alive
TNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step(Traces[tr].ev[pos]) /\ Still(Traces[tr].ev[pos])
  /\ mark' = IF Traces[tr].ev[pos].e = "mark" THEN Alive ELSE mark
  /\ pos' = pos + 1 /\ tr' = tr
  /\ PrintT(IF pos' > Len(Traces[tr].ev) THEN <<"ACCEPT", Traces[tr].id>> ELSE <<"AT", Traces[tr].id, pos>>)
=============================================================================
