----------------------------- MODULE NumericsMC -----------------------------
(* Laws of the definitions in Numerics and Interpol on all small instances.   *)
EXTENDS Numerics, TLC
CONSTANTS Ent, Part
VARIABLES c, done
E2 == {<<a, b>> : a \in Ent, b \in Ent}
Systems == {[k |-> "sys", A |-> <<r1, r2>>, y |-> y] : r1 \in E2, r2 \in E2, y \in {<<"1", "0">>, <<"1", "-2">>}}
Regs == {[k |-> "reg", A |-> <<r1, r2, r3>>, y |-> <<"1", "-1", "2">>] : r1 \in E2, r2 \in E2, r3 \in E2}
Polys == {[k |-> "poly", fam |-> f, n |-> n] : f \in Families, n \in 0..(MaxDeg - 1)}
Tabs == {[k |-> "tab", ys |-> <<a, b, d, e>>] : a \in Ent, b \in Ent, d \in Ent, e \in Ent}
Init == c \in (CASE Part = "sys" -> Systems [] Part = "reg" -> Regs [] Part = "poly" -> Polys [] Part = "tab" -> Tabs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, done>>
\* Cramer's solution solves, and only a singular matrix has rank below 2
Det(A) == RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))
Cramer(A, y) == LET d == Det(A) IN <<RDiv(RSub(RMul(y[1], A[2][2]), RMul(A[1][2], y[2])), d), RDiv(RSub(RMul(A[1][1], y[2]), RMul(A[2][1], y[1])), d)>>
SysLaw == (done /\ c.k = "sys") => /\ SingularM(c.A) = (Det(c.A) = "0")
                                   /\ Det(c.A) # "0" => Solves(c.A, Cramer(c.A, c.y), c.y, 0) /\ ~Solves(c.A, VAdd(Cramer(c.A, c.y), <<"1/10", "0">>), c.y, "1e-4")
\* the normal equations' solution is the only least-squares solution of full rank; soft threshold shrinks; ridge tends to it
RegLaw == (done /\ c.k = "reg") =>
   LET At == Transpose(c.A)
       G == <<MatVec(At, Col(c.A, 1)), MatVec(At, Col(c.A, 2))>>
       rhs == MatVec(At, c.y)
   IN Rank(c.A) = 2 => LET x == Cramer(G, rhs)
                           H == <<<<RAdd(G[1][1], "1/2"), G[1][2]>>, <<G[2][1], RAdd(G[2][2], "1/2")>>>>
                       IN /\ LeastSquares(c.A, x, c.y, 0) /\ ~LeastSquares(c.A, VAdd(x, <<"0", "1/10">>), c.y, "1e-3")
                          /\ Ridge(c.A, Cramer(H, rhs), c.y, "1/2", 0) /\ Ridge(c.A, x, c.y, 0, 0)
                          /\ \A l \in {"0", "1/3"} : Lasso(<<Soft(x[1], l), Soft(x[2], l)>>, x, l, 0) /\ RLe(VNorm1(<<Soft(x[1], l), Soft(x[2], l)>>), VNorm1(x))
\* three-term recurrences and values at 1
Pt == {"0", "1", "-1", "1/2", "3"}
PolyLaw == (done /\ c.k = "poly") => \A x \in Pt :
   LET n == c.n
       P(k) == IF k < 0 THEN "0" ELSE Poly(c.fam, k, x)
   IN CASE c.fam = "monomial" -> REq(P(n + 1), RMul(x, P(n)))
        [] c.fam = "chebyshev" -> n >= 1 => REq(P(n + 1), RSub(RMul(RMul(2, x), P(n)), P(n - 1)))
        [] c.fam = "legendre" -> REq(RMul(n + 1, P(n + 1)), RSub(RMul(2 * n + 1, RMul(x, P(n))), RMul(n, P(n - 1))))
        [] c.fam = "laguerre" -> REq(RMul(n + 1, P(n + 1)), RSub(RMul(RSub(2 * n + 1, x), P(n)), RMul(n, P(n - 1))))
PolyOne == (done /\ c.k = "poly") => IF c.fam = "laguerre" THEN REq(Poly(c.fam, c.n, 0), 1) ELSE REq(Poly(c.fam, c.n, 1), 1)
\* interpolation: nodes, clamping, between neighbours (linear), exact on lines and interior parabolas
XS == <<"0", "1", "5/2", "3">>
TabLaw == (done /\ c.k = "tab") => \A h \in {"linear", "quadratic"} :
   /\ \A j \in 1..4 : REq(Interp(h, XS, c.ys, XS[j]), c.ys[j])
   /\ REq(Interp(h, XS, c.ys, "-1"), c.ys[1]) /\ REq(Interp(h, XS, c.ys, "7"), c.ys[4])
   /\ \A k \in 1..3 : LET m == RDiv(RAdd(XS[k], XS[k+1]), 2) IN REq(Interp("linear", XS, c.ys, m), RDiv(RAdd(c.ys[k], c.ys[k+1]), 2))
   /\ LET a == c.ys[1]
          b == c.ys[2]
          d == c.ys[3]
          g(x) == RAdd(a, RMul(b, x))
          q(x) == RAdd(g(x), RMul(d, RMul(x, x)))
          L == [j \in 1..4 |-> g(XS[j])]
          Q == [j \in 1..4 |-> q(XS[j])]
      IN \A x \in {"1/3", "1", "3/2", "2", "11/4"} : REq(Interp(h, XS, L, x), g(x)) /\ ((h = "quadratic" /\ RLt(1, x) /\ RLt(x, "5/2")) => REq(Interp(h, XS, Q, x), q(x)))
=============================================================================
