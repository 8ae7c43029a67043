------------------------------ MODULE Interpol ------------------------------
(* Interpolation of tabulated values ys at strictly increasing nodes xs.      *)
EXTENDS Rat, Integers, Sequences
Interval(xs, x) == CHOOSE k \in 1..(Len(xs) - 1) : RLe(xs[k], x) /\ RLe(x, xs[k+1])
Line(xs, ys, x, k) == RAdd(ys[k], RDiv(RMul(RSub(x, xs[k]), RSub(ys[k+1], ys[k])), RSub(xs[k+1], xs[k])))
Parabola(xs, ys, x, k) ==                           \* through nodes k-1, k, k+1 (Newton form)
  LET d1 == RDiv(RSub(ys[k], ys[k-1]), RSub(xs[k], xs[k-1]))
      d2 == RDiv(RSub(ys[k+1], ys[k]), RSub(xs[k+1], xs[k]))
      d3 == RDiv(RSub(d2, d1), RSub(xs[k+1], xs[k-1]))
  IN RAdd(ys[k-1], RMul(RSub(x, xs[k-1]), RAdd(d1, RMul(d3, RSub(x, xs[k])))))
Interp(how, xs, ys, x) ==
  CASE RLe(x, xs[1]) -> R(ys[1])
    [] RLe(xs[Len(xs)], x) -> R(ys[Len(ys)])
    [] OTHER -> LET k == Interval(xs, x) IN
                IF how = "linear" \/ k = 1 \/ k = Len(xs) - 1 THEN Line(xs, ys, x, k) ELSE Parabola(xs, ys, x, k)
=============================================================================
