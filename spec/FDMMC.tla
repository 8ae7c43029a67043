-------------------------------- MODULE FDMMC --------------------------------
(* Laws of the schemes, explored over all small problems: the steps taken are *)
(* a behaviour (u, n) of the scheme.                                          *)
EXTENDS FDM, TLC
CONSTANTS Js, Ns
Ds == {<<"1/10", "0", "0", "0">>, <<"1/5", "1/10", "1/20", "1/30">>}
Cs == {<<"0", "0", "0", "0">>, <<"1/10", "-1/5", "1/10", "1/7">>}
Rs == {<<"0", "0", "0", "0">>, <<"-1/10", "-1/5", "0", "0">>}
Fs == {<<"0", "0", "0", "0">>, <<"1", "-1", "1/2", "1/3">>}
Bs == {<<"1", "0", "0", "0">>, <<"1", "0", "0", "2">>, <<"2", "-1", "3", "0">>}
Is == {<<"1", "2", "0", "0", "0">>, <<"0", "1", "1", "3/2", "1">>}
VARIABLES p, u, n
Prob(s, J, N, D, C, Rr, f, bl, br, ic) == [scheme |-> s, J |-> J, N |-> N, xDom |-> "3", tDom |-> "1/2", D |-> D, C |-> C, R |-> Rr, f |-> f, bl |-> bl, br |-> br, ic |-> ic]
Probs == {Prob(s, J, N, D, C, Rr, f, bl, br, ic) : s \in {"explicit", "implicit", "cn"}, J \in Js, N \in Ns, D \in Ds, C \in Cs, Rr \in Rs, f \in Fs, bl \in Bs, br \in Bs, ic \in Is}
Init == p \in Probs /\ u = Initial(p) /\ n = 0
Next == n < p.N - 1 /\ u' = Step(p, u, n) /\ n' = n + 1 /\ p' = p
Spec == Init /\ [][Next]_<<p, u, n>>
Tiny == "1e-60"
Zero(x) == RLe(RAbs(x), Tiny)
\* every step solves the scheme's equations (residual of the step that would come next)
Residual0 == n < p.N - 1 =>
  LET v == Step(p, u, n)
      th == Theta(p.scheme)
      t0 == Tm(p, n)
      t1 == Tm(p, n + 1)
  IN /\ \A j \in 2..(p.J - 1) :
          Zero(RSub(RSub(RDiv(RSub(v[j], u[j]), Dt(p)),
                         RAdd(RMul(th, Lu(p, t1, v, j)), RMul(RSub(1, th), Lu(p, t0, u, j)))),
                    RNeg(RAdd(RMul(th, Src(p.f, t1, X(p, j))), RMul(RSub(1, th), Src(p.f, t0, X(p, j)))))))
     /\ Zero(RSub(v[1], Bnd(p.bl, t1, 0))) /\ Zero(RSub(v[p.J], Bnd(p.br, t1, p.xDom)))
\* exactly N-1 steps end at tDom
Ends == n = p.N - 1 => REq(Tm(p, n), p.tDom)
\* an affine function solves the problem without convection, reaction and source, and every scheme keeps it exactly
Affine == (p.C = <<"0", "0", "0", "0">> /\ p.R = <<"0", "0", "0", "0">> /\ p.f = <<"0", "0", "0", "0">> /\ p.ic[3] = "0" /\ p.ic[4] = "0"
           /\ p.bl = <<p.ic[1], "0", "0", "0">> /\ p.br = <<p.ic[1], "0", "0", p.ic[2]>>)
          => \A j \in 1..p.J : Zero(RSub(u[j], Ini(p.ic, X(p, j))))
\* interpolation of the grid: nodes, clamping, exactness
Nodes == LET xs == [j \in 1..p.J |-> X(p, j)] IN \A h \in {"linear", "quadratic"} :
          /\ \A j \in 1..p.J : REq(Interp(h, xs, u, xs[j]), u[j])
          /\ REq(Interp(h, xs, u, "4"), u[p.J]) /\ REq(Interp(h, xs, u, "-1"), u[1])
\* the Black-Scholes formula respects parity and its boundary data
ASSUME Parity == \A S \in {"1/2", "1", "3"}, r \in {"0", "1/10"}, c \in {"none", "1/20"} :
   LET m == [sig |-> "1/5", c |-> c, r |-> r]
       o(b) == [call |-> b, K |-> "1", T |-> "2"]
   IN /\ RLe(RAbs(RSub(RSub(BSprice(o(TRUE), m, S), BSprice(o(FALSE), m, S)), BSright(o(TRUE), m, 2, S))), "1e-40")
      /\ RLe(BSright(o(TRUE), m, 2, S), BSprice(o(TRUE), m, S))
=============================================================================
