------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* Contracts: payoffs, the options the factories build from parameter      *)
(* objects, and equality/cloning of payoffs and stock records.             *)
(***************************************************************************)
EXTENDS Terms

(* ------------------------------ transitions ---------------------------- *)
VARIABLES params,  \* the parameter object: name -> [ty, v]
          known,   \* registered tickers
          opts,    \* live options
          pool,    \* live payoff objects
          recs     \* stock records
cvars == <<params, known, opts, pool, recs>>
CInit == params = None /\ known = {} /\ opts = None /\ pool = None /\ recs = None
SetParam(n, ty, v) == params' = CPut(params, n, [ty |-> ty, v |-> v]) /\ UNCHANGED <<known, opts, pool, recs>>
Clear              == params' = None /\ UNCHANGED <<known, opts, pool, recs>>
AddTicker(t)       == known' = known \cup {t} /\ UNCHANGED <<params, opts, pool, recs>>
Create(id, f, cp)  == /\ IF Creates(f, params, known) THEN opts' = CPut(opts, id, OptionOf(f, cp, params)) ELSE UNCHANGED opts
                      /\ UNCHANGED <<params, known, pool, recs>>
DropOption(id)     == id \in DOMAIN opts /\ opts' = CDel(opts, id) /\ UNCHANGED <<params, known, pool, recs>>
Make(i, p)         == /\ IF ValidPayoff(p) THEN pool' = CPut(pool, i, p) ELSE UNCHANGED pool
                      /\ UNCHANGED <<params, known, opts, recs>>
Clone(i, j)        == i \in DOMAIN pool /\ pool' = CPut(pool, j, pool[i]) /\ UNCHANGED <<params, known, opts, recs>>
CloneOf(id, j)     == id \in DOMAIN opts /\ pool' = CPut(pool, j, opts[id].pay) /\ UNCHANGED <<params, known, opts, recs>>
Destroy(i)         == i \in DOMAIN pool /\ pool' = CDel(pool, i) /\ UNCHANGED <<params, known, opts, recs>>
MakeRec(i, r)      == recs' = CPut(recs, i, r) /\ UNCHANGED <<params, known, opts, pool>>

(* ------------------------------ guarantees ----------------------------- *)
OptsWellFormed == \A i \in DOMAIN opts : ValidPayoff(opts[i].pay) /\ RLe(0, opts[i].T) /\ opts[i].ticker \in known
PoolValid      == \A i \in DOMAIN pool : ValidPayoff(pool[i])
Equivalence    == /\ \A i \in DOMAIN pool : SamePayoff(pool[i], pool[i])
                  /\ \A i, j \in DOMAIN pool : SamePayoff(pool[i], pool[j]) <=> SamePayoff(pool[j], pool[i])
                  /\ \A i, j, k \in DOMAIN pool : SamePayoff(pool[i], pool[j]) /\ SamePayoff(pool[j], pool[k]) => SamePayoff(pool[i], pool[k])
EqualPaysSame(Ss) == \A i, j \in DOMAIN pool : SamePayoff(pool[i], pool[j]) /\ OneArg(pool[i]) => \A S \in Ss : REq(Pays(pool[i], S), Pays(pool[j], S))
NeverNegative(Ss) == \A i \in DOMAIN pool : \A S \in Ss : IF OneArg(pool[i]) THEN RLe(0, Pays(pool[i], S)) ELSE \A m \in Ss : RLe(0, Pays2(pool[i], S, m))
Parity(Ss) == \A i, j \in DOMAIN pool : (pool[i].kind = "vanilla" /\ pool[j].kind = "vanilla" /\ pool[i].cp = "call" /\ pool[j].cp = "put" /\ pool[i].k1 = pool[j].k1)
                  => \A S \in Ss : REq(RSub(Pays(pool[i], S), Pays(pool[j], S)), RSub(S, pool[i].k1))
Partition(Ss) == \A i, j \in DOMAIN opts : (opts[i].f = "knockin" /\ opts[j].f = "knockout" /\ opts[i].B = opts[j].B /\ opts[i].dir = opts[j].dir)
                  => \A S \in Ss : Active(opts[i], S) # Active(opts[j], S)
=============================================================================
