------------------------------- MODULE Random -------------------------------
(***************************************************************************)
(* Number generators and distributions.                                    *)
(* A generator is its kind, dimension, seed and the draws made from it.    *)
(* Quasi-random: the k-th draw is a coordinate of a point of the Sobol or  *)
(* Faure sequence, defined here from first principles (primitive           *)
(* polynomials and initial direction numbers of Joe and Kuo for the first  *)
(* 64 dimensions; powers of the Pascal matrix modulo a prime), passed      *)
(* through the inverse distribution function.  Pseudo-random: the k-th     *)
(* draw is an unknown function of seed and draws made so far.              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, Bitwise, TLC
\* ---------------------------------------------------------------- Faure
IsPrime(n)  == n >= 2 /\ \A k \in 2..(n-1) : k * k > n \/ n % k # 0
Base(d)     == CHOOSE p \in 2..(2*d+1) : IsPrime(p) /\ p >= d /\ \A q \in 2..(p-1) : ~(IsPrime(q) /\ q >= d)
RECURSIVE Digits(_, _)
Digits(n, b) == IF n = 0 THEN <<>> ELSE <<n % b>> \o Digits(n \div b, b)
RECURSIVE PowMod(_, _, _)
PowMod(x, k, b) == IF k = 0 THEN 1 ELSE (x * PowMod(x, k - 1, b)) % b
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k
RECURSIVE SumI(_, _)
SumI(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumI(f, S \ {x})
BinomT == [n \in 0..28 |-> [k \in 0..n |-> Binom(n, k)]]
\* coordinate k (from 0) of point n of the d-dimensional Faure sequence
FaureDigit(a, b, k, i) == SumI([j \in i..(Len(a)-1) |-> ((BinomT[j][i] % b) * PowMod(k % b, j - i, b) * a[j+1]) % b], i..(Len(a)-1)) % b
RECURSIVE Horner(_, _)
Horner(ds, b) == IF ds = <<>> THEN "0" ELSE RDiv(RAdd(Head(ds), Horner(Tail(ds), b)), b)
FaureCoord(d, n, k) == LET b == Base(d)
                           a == Digits(n, b)
                       IN Horner([i \in 1..Len(a) |-> FaureDigit(a, b, k, i - 1)], b)
\* ---------------------------------------------------------------- Sobol
MaxBits == 29                     \* indices below 2^29
Pow2 == [k \in 0..30 |-> 2^k]
PolyInit == <<
  <<3, <<1>>>>,  <<7, <<1, 3>>>>,  <<11, <<1, 3, 1>>>>,
  <<13, <<1, 1, 1>>>>,  <<19, <<1, 1, 3, 3>>>>,  <<25, <<1, 3, 5, 13>>>>,
  <<37, <<1, 1, 5, 5, 17>>>>,  <<41, <<1, 1, 5, 5, 5>>>>,  <<47, <<1, 1, 7, 11, 19>>>>,
  <<55, <<1, 1, 5, 1, 1>>>>,  <<59, <<1, 1, 1, 3, 11>>>>,  <<61, <<1, 3, 5, 5, 31>>>>,
  <<67, <<1, 3, 3, 9, 7, 49>>>>,  <<91, <<1, 1, 1, 15, 21, 21>>>>,  <<97, <<1, 3, 1, 13, 27, 49>>>>,
  <<103, <<1, 1, 1, 15, 7, 5>>>>,  <<109, <<1, 3, 1, 15, 13, 25>>>>,  <<115, <<1, 1, 5, 5, 19, 61>>>>,
  <<131, <<1, 3, 7, 11, 23, 15, 103>>>>,  <<137, <<1, 3, 7, 13, 13, 15, 69>>>>,  <<143, <<1, 1, 3, 13, 7, 35, 63>>>>,
  <<145, <<1, 3, 5, 9, 1, 25, 53>>>>,  <<157, <<1, 3, 1, 13, 9, 35, 107>>>>,  <<167, <<1, 3, 1, 5, 27, 61, 31>>>>,
  <<171, <<1, 1, 5, 11, 19, 41, 61>>>>,  <<185, <<1, 3, 5, 3, 3, 13, 69>>>>,  <<191, <<1, 1, 7, 13, 1, 19, 1>>>>,
  <<193, <<1, 3, 7, 5, 13, 19, 59>>>>,  <<203, <<1, 1, 3, 9, 25, 29, 41>>>>,  <<211, <<1, 3, 5, 13, 23, 1, 55>>>>,
  <<213, <<1, 3, 7, 3, 13, 59, 17>>>>,  <<229, <<1, 3, 1, 3, 5, 53, 69>>>>,  <<239, <<1, 1, 5, 5, 23, 33, 13>>>>,
  <<241, <<1, 1, 7, 7, 1, 61, 123>>>>,  <<247, <<1, 1, 7, 9, 13, 61, 49>>>>,  <<253, <<1, 3, 3, 5, 3, 55, 33>>>>,
  <<285, <<1, 3, 1, 15, 31, 13, 49, 245>>>>,  <<299, <<1, 3, 5, 15, 31, 59, 63, 97>>>>,  <<301, <<1, 3, 1, 11, 11, 11, 77, 249>>>>,
  <<333, <<1, 3, 1, 11, 27, 43, 71, 9>>>>,  <<351, <<1, 1, 7, 15, 21, 11, 81, 45>>>>,  <<355, <<1, 3, 7, 3, 25, 31, 65, 79>>>>,
  <<357, <<1, 3, 1, 1, 19, 11, 3, 205>>>>,  <<361, <<1, 1, 5, 9, 19, 21, 29, 157>>>>,  <<369, <<1, 3, 7, 11, 1, 33, 89, 185>>>>,
  <<391, <<1, 3, 3, 3, 15, 9, 79, 71>>>>,  <<397, <<1, 3, 7, 11, 15, 39, 119, 27>>>>,  <<425, <<1, 1, 3, 1, 11, 31, 97, 225>>>>,
  <<451, <<1, 1, 1, 3, 23, 43, 57, 177>>>>,  <<463, <<1, 3, 7, 7, 17, 17, 37, 71>>>>,  <<487, <<1, 3, 1, 5, 27, 63, 123, 213>>>>,
  <<501, <<1, 1, 3, 5, 11, 43, 53, 133>>>>,  <<529, <<1, 3, 5, 5, 29, 17, 47, 173, 479>>>>,  <<539, <<1, 3, 3, 11, 3, 1, 109, 9, 69>>>>,
  <<545, <<1, 1, 1, 5, 17, 39, 23, 5, 343>>>>,  <<557, <<1, 3, 1, 5, 25, 15, 31, 103, 499>>>>,  <<563, <<1, 1, 1, 11, 11, 17, 63, 105, 183>>>>,
  <<601, <<1, 1, 5, 11, 9, 29, 97, 231, 363>>>>,  <<607, <<1, 1, 5, 15, 19, 45, 41, 7, 383>>>>,  <<617, <<1, 3, 7, 7, 31, 19, 83, 137, 221>>>>,
  <<623, <<1, 1, 1, 3, 23, 15, 111, 223, 83>>>>,  <<631, <<1, 1, 5, 13, 31, 15, 55, 25, 161>>>>,  <<637, <<1, 1, 3, 13, 25, 47, 39, 87, 257>>>>
>>
Degree(p) == CHOOSE k \in 1..15 : Pow2[k] <= p /\ p < Pow2[k+1]
RECURSIVE MTerm(_, _, _, _, _)
MTerm(m, p, deg, j, k) ==         \* xor of the polynomial's terms k..deg-1 for m[j] (1-based j)
  IF k = deg THEN m[j - deg]
  ELSE LET rest == MTerm(m, p, deg, j, k + 1) IN IF (p \div Pow2[k]) % 2 = 1 THEN (m[j - (deg - k)] * Pow2[deg - k]) ^^ rest ELSE rest
RECURSIVE Extend(_, _, _)
Extend(m, p, deg) == IF Len(m) = MaxBits THEN m ELSE Extend(Append(m, MTerm(m, p, deg, Len(m) + 1, 0)), p, deg)
\* direction integers of dimension d: v[r] = m[r] 2^(MaxBits-r)
Direction == [d \in 1..(Len(PolyInit) + 1) |->
   LET m == IF d = 1 THEN [r \in 1..MaxBits |-> 1] ELSE LET q == PolyInit[d-1] IN Extend(q[2], q[1], Degree(q[1]))
   IN [r \in 1..MaxBits |-> m[r] * Pow2[MaxBits - r]]]
MaxSobolDim == Len(PolyInit) + 1
GrayBits(n) == LET g == n ^^ (n \div 2) IN {r \in 1..MaxBits : (g \div Pow2[r-1]) % 2 = 1}
RECURSIVE XorAll(_, _)
XorAll(v, S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN v[r] ^^ XorAll(v, S \ {r})
SobolInt(n, k) == XorAll(Direction[k+1], GrayBits(n))
\* the sequence starts after the trivial zero point: index 0 is (1/2, 1/2, ...)
SobolCoord(n, k) == RDiv(SobolInt(n + 1, k), Pow2[MaxBits])
\* ---------------------------------------------------------------- generators
Quasi(kind) == kind \in {"sobol", "faure"}
Coord(kind, d, n, k) == IF kind = "sobol" THEN SobolCoord(n, k) ELSE FaureCoord(d, n, k)
\* the uniform number behind draw number k (from 1) of a quasi-random generator
Uniform(g, k) == Coord(g.kind, g.dim, g.seed + ((k - 1) \div g.dim), (k - 1) % g.dim)
VARIABLES gens                    \* generators alive: id -> [kind, dim, seed, hist, n]: laws drawn from so far, number of draws
GInit == gens = [g \in {} |-> 0]
GNew(g, kind, dim, seed) == gens' = [x \in DOMAIN gens \cup {g} |-> IF x = g THEN [kind |-> kind, dim |-> dim, seed |-> seed, hist |-> <<>>, n |-> 0] ELSE gens[x]]
GCopy(g, h) == g \in DOMAIN gens /\ gens' = [x \in DOMAIN gens \cup {h} |-> IF x = h THEN gens[g] ELSE gens[x]]
GDraw(g, law) == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].hist = Append(@, law), ![g].n = @ + 1]
GSkip(g, n) == g \in DOMAIN gens /\ gens' = [gens EXCEPT ![g].hist = Append(@, "skip" \o ToString(n)), ![g].n = @ + n]
=============================================================================
