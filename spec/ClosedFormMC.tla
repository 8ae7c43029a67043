---------------------------- MODULE ClosedFormMC ----------------------------
(* Laws of the closed formulas on a grid of contracts and markets.          *)
EXTENDS ClosedForm, TLC
VARIABLES m, o, done
Ms == [S : {"100"}, sig : {"0.2", "0.6"}, c : {"none", "0.03"}, r : {"0.05", "-0.01"}]
Kx(mm) == {RMul(mm.S, k) : k \in {"0.7", "1", "1.4"}}
Os(mm) == [f : {"knockin"}, cp : {"call", "put"}, K : Kx(mm), B : Kx(mm), dir : {"up", "down"}, T : {"0.5"}]
X == [model |-> "gbm", steps |-> 1]
XM == [model |-> "merton", lam |-> "0.8", muJ |-> "-0.1", sJ |-> "0.2", terms |-> 25]
Near(a, b) == RLe(RAbs(RSub(a, b)), "1e-12")
Init == m \in Ms /\ o \in Os(m) /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<m, o>>
With(f) == [o EXCEPT !.f = f]
Fwd == RMul(m.S, RExp(RMul(RSub(m.r, Cp(m)), o.T)))
Laws(x) ==
  /\ Near(RAdd(Worth(With("knockin"), m, x), Worth(With("knockout"), m, x)), Worth(With("european"), m, x))
  /\ Near(RSub(Worth([With("european") EXCEPT !.cp = "call"], m, x), Worth([With("european") EXCEPT !.cp = "put"], m, x)), RMul(Disc(m, o.T), RSub(Fwd, o.K)))
  /\ Near(RAdd(Worth([With("digital") EXCEPT !.cp = "call"], m, x), Worth([With("digital") EXCEPT !.cp = "put"], m, x)), Disc(m, o.T))
  /\ RLe(0, Worth(o, m, x)) /\ RLe(Worth(o, m, x), Worth(With("european"), m, x))
  /\ \E q \in {Claim(o)} : \E ls \in {Law(o, m, x)} : RLe(RMul(Mean(q, ls), Mean(q, ls)), RAdd(Square(q, ls), "1e-12"))
  /\ Near(RSum([k \in DOMAIN Law(o, m, x) |-> Law(o, m, x)[k].w]), 1)
Inv == done => Laws(X) /\ Laws(XM)
=============================================================================
