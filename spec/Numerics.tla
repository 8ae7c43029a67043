------------------------------ MODULE Numerics ------------------------------
(***************************************************************************)
(* What the numerical tools compute: solutions of linear systems, fitted   *)
(* coefficients, basis polynomials (interpolation: Interpol).              *)
(***************************************************************************)
EXTENDS Lin, Interpol
\* ------------------------------------------------------------- linear systems
Residual1(A, x, b) == VSub(MatVec(A, x), b)
RowNorm(A) == RSeqMax([i \in DOMAIN A |-> VNorm1(A[i])])
\* backward-stable solution: residual small against |A||x| + |b|
Solves(A, x, b, tol) ==
  LET r == Residual1(A, x, b)
      s == RAdd(RMul(RowNorm(A), VMax(x)), VMax(b))
  IN Len(x) = Len(b) /\ \A i \in DOMAIN b : RLe(RAbs(r[i]), RMul(tol, s))
\* forward error against the exact solution (well-conditioned systems)
NearVec(x, y, tol) == Len(x) = Len(y) /\ LET s == VMax(y) IN \A i \in DOMAIN y : RLe(RAbs(RSub(x[i], y[i])), RMul(tol, s))
SingularM(A) == Rank(A) < Len(A)
Thomas(A) == \A i \in DOMAIN A, j \in DOMAIN A : (i > j + 1 \/ j > i + 1) => REq(A[i][j], 0)
\* ------------------------------------------------------------- regression
Transpose(A) == [j \in 1..Len(A[1]) |-> Col(A, j)]
\* the fit is the projection of y on the columns
FitsLS(A, x, y, tol) == LET f == Fitted(A, y)
                            z == MatVec(A, x)
                        IN \A i \in DOMAIN y : RLe(RAbs(RSub(z[i], f[i])), RMul(tol, VMax(y)))
\* minimum norm: no component orthogonal to the rows
MinNorm(A, x, tol) == LET q == Residual(x, OrthFrom(Transpose(A), 1, <<>>)) IN VMax(x) = "0" \/ RLe(VMax(q), RMul(tol, VMax(x)))
LeastSquares(A, x, y, tol) == Len(x) = Len(A[1]) /\ FitsLS(A, x, y, tol) /\ MinNorm(A, x, tol)
NormalLhs(A, x, lam) == VAdd(MatVec(Transpose(A), MatVec(A, x)), VScale(lam, x))
Ridge(A, x, y, lam, tol) == LET r == VSub(NormalLhs(A, x, lam), MatVec(Transpose(A), y))
                                s == RAdd(VMax(MatVec(Transpose(A), y)), RMul(VMax(x), RAdd(RAbs(lam), RMul(Len(A), RMul(RowNorm(A), RowNorm(A))))))
                            IN Len(x) = Len(A[1]) /\ (VMax(r) = "0" \/ RLe(VMax(r), RMul(tol, s)))
Soft(b, lam) == IF RLt(lam, b) THEN RSub(b, lam) ELSE IF RLt(b, RNeg(lam)) THEN RAdd(b, lam) ELSE "0"
Lasso(x, ls, lam, tol) == Len(x) = Len(ls) /\ \A i \in DOMAIN x : RLe(RAbs(RSub(x[i], Soft(ls[i], lam))), RMul(tol, RAdd(lam, RAbs(ls[i]))))
\* ------------------------------------------------------------- polynomials: coefficients of x^0 .. x^n
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN "1" ELSE RMul(n, Fact(n - 1))
Choose(n, k) == RDiv(Fact(n), RMul(Fact(k), Fact(n - k)))
Sg(k) == IF k % 2 = 0 THEN "1" ELSE "-1"
MonoC(n) == [k \in 0..n |-> IF k = n THEN "1" ELSE "0"]
LagC(n)  == [k \in 0..n |-> RDiv(RMul(Sg(k), Choose(n, k)), Fact(k))]
LegC(n)  == [k \in 0..n |-> IF (n - k) % 2 # 0 THEN "0"
                            ELSE LET m == (n - k) \div 2 IN RDiv(RMul(Sg(m), RMul(Choose(n, m), Choose(2 * n - 2 * m, n))), RPow("2", n))]
CheC(n)  == [k \in 0..n |-> IF n = 0 THEN "1" ELSE IF (n - k) % 2 # 0 THEN "0"
                            ELSE LET m == (n - k) \div 2 IN RMul(RMul(Sg(m), RDiv(n, 2)), RDiv(RMul(Fact(n - m - 1), RPow("2", k)), RMul(Fact(m), Fact(k))))]
Coef(fam, n) == CASE fam = "monomial" -> MonoC(n) [] fam = "laguerre" -> LagC(n) [] fam = "legendre" -> LegC(n) [] fam = "chebyshev" -> CheC(n)
PolyVal(c, n, x) == RSum([k \in 1..(n + 1) |-> RMul(c[k-1], RPow(x, k - 1))])
PolyAbs(c, n, x) == RSum([k \in 1..(n + 1) |-> RAbs(RMul(c[k-1], RPow(x, k - 1)))])
Families == {"monomial", "chebyshev", "legendre", "laguerre"}
MaxDeg == 30
Table == [fam \in Families |-> [n \in 0..MaxDeg |-> Coef(fam, n)]]
Poly(fam, n, x) == PolyVal(Table[fam][n], n, x)
\* size of the terms: what rounding is measured against
PolyScale(fam, n, x) == PolyAbs(Table[fam][n], n, RMax(1, RAbs(x)))
=============================================================================
