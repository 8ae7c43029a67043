---------------------------- MODULE NumericsJudge ----------------------------
EXTENDS Numerics, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st
AllNum(v) == \A k \in DOMAIN v : IsNum(v[k])
Tol == "1e-10"
SolveBad(c) ==
  CASE c.expect = "refuse" -> (IF c.st = "ok" THEN "a system that has to be refused was solved" ELSE "ok")
    [] c.st # "ok" -> "a regular system was refused"
    [] ~AllNum(c.x) -> "the solution is not finite"
    [] ~c.same -> "A or b was changed"
    [] ~Solves(c.A, c.x, c.b, "1e-11") -> "the solution does not solve the system"
    [] ~NearVec(c.x, c.x0, "1e-7") -> "the solution is not the system's solution"
    [] OTHER -> "ok"
InterpBad(c) ==
  CASE c.st # "ok" -> "interpolation failed"
    [] OTHER -> LET bad == {k \in DOMAIN c.x : ~(IsNum(c.v[k]) /\ RLe(RAbs(RSub(c.v[k], Interp(c.how, c.xs, c.ys, c.x[k]))), RMul("1e-10", VMax(c.ys))))}
                IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE k \in bad : TRUE IN "value at " \o RShow(c.x[k]) \o " is " \o RShow(c.v[k]) \o " instead of " \o RShow(Interp(c.how, c.xs, c.ys, c.x[k]))
RegBad(c) ==
  CASE RLt(c.lam, 0) -> (IF c.ridgest = "invalid_argument" /\ c.lassost = "invalid_argument" THEN "ok" ELSE "a negative lambda was not refused with invalid_argument")
    [] c.st # "ok" \/ c.ridgest # "ok" \/ c.lassost # "ok" -> "regression failed"
    [] ~(AllNum(c.ls) /\ AllNum(c.ridge) /\ AllNum(c.lasso)) -> "coefficients are not finite"
    [] ~LeastSquares(c.A, c.ls, c.y, c.tol) -> "least squares does not return the (minimum-norm) least-squares solution"
    [] (RLt(0, c.lam) \/ c.full) /\ ~Ridge(c.A, c.ridge, c.y, c.lam, "1e-10") -> "ridge does not solve its normal equations"
    [] c.lam = "0x0p+0" /\ c.full /\ ~LeastSquares(c.A, c.ridge, c.y, "1e-6") -> "ridge with lambda 0 is not least squares"
    [] ~Lasso(c.lasso, c.ls, c.lam, "1e-10") -> "lasso is not the soft-thresholded least-squares solution"
    [] OTHER -> "ok"
PolyNear(fam, n, x, v) == LET w == Poly(fam, n, x) IN RLe(RAbs(RSub(v, w)), RAdd(RMul("1e-14", PolyScale(fam, n, x)), RMul("1e-11", RMax(1, RAbs(w)))))
BasisBad(c) ==
  CASE c.n = 0 -> (IF c.st = "invalid_argument" THEN "ok" ELSE "a basis of zero functions was not refused with invalid_argument")
    [] c.st # "ok" -> "basis failed"
    [] Len(c.rows) # Len(c.x) \/ \E k \in DOMAIN c.rows : Len(c.rows[k]) # c.n -> "wrong shape"
    [] OTHER -> LET bad == {<<k, n>> \in (DOMAIN c.x) \X (1..c.n) : ~(IsNum(c.rows[k][n]) /\ PolyNear(c.fam, n - 1, c.x[k], c.rows[k][n]))}
                IN IF bad = {} THEN "ok" ELSE LET k == CHOOSE k \in bad : \A m \in bad : k[2] <= m[2] IN "column " \o ToString(k[2] - 1) \o " is not the " \o c.fam \o " polynomial of that degree"
Bad(c) == CASE c.k = "solve" -> SolveBad(c) [] c.k = "interp" -> InterpBad(c) [] c.k = "reg" -> RegBad(c) [] c.k = "basis" -> BasisBad(c)
Init == i \in 1..Len(Cases) /\ st = "todo"
Next == /\ st = "todo" /\ st' = "done" /\ i' = i
        /\ LET b == Bad(Cases[i]) IN b = "ok" \/ PrintT(<<"REJECT", Cases[i].id, b>>)
=============================================================================
