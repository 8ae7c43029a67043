--------------------------------- MODULE Lin ---------------------------------
(* Exact linear algebra over Rat.  A matrix is a sequence of rows.           *)
EXTENDS Rat, Integers, Sequences, FiniteSets
VScale(a, v)  == [i \in DOMAIN v |-> RMul(a, v[i])]
VSub(v, w)    == [i \in DOMAIN v |-> RSub(v[i], w[i])]
VAdd(v, w)    == [i \in DOMAIN v |-> RAdd(v[i], w[i])]
VZero(n)      == [i \in 1..n |-> "0"]
Col(A, j)     == [i \in DOMAIN A |-> A[i][j]]
MatVec(A, x)  == [i \in DOMAIN A |-> RDot(A[i], x)]
VNorm1(v)     == RSum([i \in DOMAIN v |-> RAbs(v[i])])
VMax(v)       == RSeqMax([i \in DOMAIN v |-> RAbs(v[i])])
Mean(s)       == RDiv(RSum(s), Len(s))
\* Orthogonal basis of the column space of A: sequence of <<q, q.q>>.
RECURSIVE Residual(_, _)
Residual(v, bs) == IF bs = <<>> THEN v
                   ELSE Residual(VSub(v, VScale(RDiv(RDot(v, Head(bs)[1]), Head(bs)[2]), Head(bs)[1])), Tail(bs))
RECURSIVE OrthFrom(_, _, _)
OrthFrom(A, j, bs) ==
  IF j > Len(A[1]) THEN bs
  ELSE LET q == Residual(Col(A, j), bs)
           n == RDot(q, q)
       IN OrthFrom(A, j + 1, IF n = "0" THEN bs ELSE Append(bs, <<q, n>>))
\* The least-squares fit: the orthogonal projection of y on the column space.
Fitted(A, y) == VSub(y, Residual(y, OrthFrom(A, 1, <<>>)))
Rank(A)      == Len(OrthFrom(A, 1, <<>>))
=============================================================================
