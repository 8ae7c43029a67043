------------------------------ MODULE FDMTrace ------------------------------
(* A grid returned by the code against the scheme: TLC takes the N-1 steps    *)
(* and compares the last grid.                                                *)
EXTENDS FDM, TLC, Json, IOUtils
CONSTANT Tol
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tr, u, n, big
P(k) == Traces[k].p
Grow(b, v) == RMax(b, VMax(v))
TInit == tr \in DOMAIN Traces /\ n = 0 /\ u = <<>> /\ big = "1"
Good(o, v, b) == o.st = "ok" /\ Len(o.grid) = Len(v) /\ \A j \in DOMAIN v : IsNum(o.grid[j]) /\ RLe(RAbs(RSub(o.grid[j], v[j])), RMul(Tol, b))
TNext ==
  LET p == P(tr) IN
  \/ /\ n = 0
     /\ u' = Initial(p) /\ n' = 1 /\ big' = Grow("1", u') /\ tr' = tr
     /\ PrintT(<<"AT", Traces[tr].id, 1>>)
  \/ /\ 1 <= n /\ n < p.N
     /\ u' = Step(p, u, n - 1) /\ n' = n + 1 /\ big' = Grow(big, u') /\ tr' = tr
     /\ PrintT(<<"AT", Traces[tr].id, n'>>)
  \/ /\ n = p.N
     /\ Good(Traces[tr].o, u, big)
     /\ n' = n + 1 /\ UNCHANGED <<tr, u, big>>
     /\ PrintT(<<"ACCEPT", Traces[tr].id>>)
=============================================================================
