------------------------------ MODULE RandomMC ------------------------------
(* Laws of the sequences defined in Random, and histories of generators.     *)
EXTENDS Random, TLC, Json
CONSTANTS Dims, K, MaxOps, Emit, Gens, Kinds, Seeds, GDims
VARIABLES mode, q, h
mv == <<gens, mode, q, h>>
\* every coordinate of the first b^K points (with the zero point) is a permutation of the multiples of b^-K
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
SobolPerm(k) == {SobolInt(n, k) : n \in 0..(Pow2[K]-1)} = {j * Pow2[MaxBits - K] : j \in 0..(Pow2[K]-1)}
FaureK(d) == CHOOSE k \in 1..K : IPow(Base(d), k) <= 64 \/ k = 1
FaurePerm(d, k) == LET b == Base(d)
                       m == IPow(b, 2)
                   IN {FaureCoord(d, n, k) : n \in 0..(m-1)} = {RDiv(j, m) : j \in 0..(m-1)}
\* first two coordinates of the first 2^K Sobol points: one point in every elementary box 2^-(K\div 2) x 2^-(K - K\div 2)
SobolNet2 == LET a == K \div 2
                 c == K - a
             IN Cardinality({<<SobolInt(n, 0) \div Pow2[MaxBits - a], SobolInt(n, 1) \div Pow2[MaxBits - c]>> : n \in 0..(Pow2[K]-1)}) = Pow2[K]
FaureNet2(d) == LET b == Base(d) IN d < 2 \/ Cardinality({<<FaureDigit(Digits(n, b) \o <<0, 0>>, b, 0, 0), FaureDigit(Digits(n, b) \o <<0, 0>>, b, 1, 0)>> : n \in 0..(b*b-1)}) = b * b
\* known first points
Known == /\ [k \in 0..1 |-> SobolCoord(0, k)] = [k \in 0..1 |-> "1/2"]
         /\ SobolCoord(1, 0) = "3/4" /\ SobolCoord(1, 1) = "1/4"
         /\ SobolCoord(3, 0) = "3/8" /\ SobolCoord(3, 1) = "3/8"
         /\ FaureCoord(3, 1, 0) = "1/3" /\ FaureCoord(3, 3, 0) = "1/9" /\ FaureCoord(3, 3, 1) = "4/9" /\ FaureCoord(3, 3, 2) = "7/9"
Init == GInit /\ h = <<>> /\ mode \in {"law", "gen"} /\ q \in (IF mode = "law" THEN Dims ELSE {0})
Do(e) == h' = Append(h, e) /\ UNCHANGED <<mode, q>>
Laws(kind) == IF Quasi(kind) THEN {"rec", "snd"} ELSE {"rec", "snd", "normal", "unif", "exp", "gamma", "poisson"}
Next == \/ mode = "law" /\ h = <<>> /\ h' = <<1>> /\ UNCHANGED <<gens, mode, q>>
        \/ /\ mode = "gen" /\ Len(h) < MaxOps
           /\ \/ \E g \in Gens, kind \in Kinds, d \in GDims, s \in Seeds : GNew(g, kind, d, s) /\ Do([op |-> "new", g |-> g, kind |-> kind, dim |-> d, seed |-> s])
              \/ \E g, k \in Gens : g # k /\ GCopy(g, k) /\ Do([op |-> "copy", g |-> g, to |-> k])
              \/ \E g \in DOMAIN gens : \E l \in Laws(gens[g].kind) : GDraw(g, l) /\ Do([op |-> "draw", g |-> g, law |-> l])
              \/ \E g \in DOMAIN gens, k \in {1, 5} : GSkip(g, k) /\ Do([op |-> "skip", g |-> g, n |-> k])
Spec == Init /\ [][Next]_mv
Perm == mode = "law" /\ h # <<>> => SobolPerm(q - 1) /\ (q <= 13 => \A k \in 0..(q-1) : FaurePerm(q, k)) /\ (q <= 13 => FaureNet2(q))
Net  == mode = "law" /\ h # <<>> => SobolNet2 /\ Known
\* the coordinates delivered are those of successive points, each exactly once, in order
InOrder == mode = "gen" => \A g \in DOMAIN gens : LET x == gens[g] IN (Quasi(x.kind) /\ x.hist # <<>>) =>
   LET n == x.n IN \E p \in 0..n, k \in 0..(x.dim-1) : n - 1 = p * x.dim + k /\ Uniform(x, n) = Coord(x.kind, x.dim, x.seed + p, k)
\* what a generator will deliver is a function of kind, dimension, seed and draws: equal generators stay interchangeable
Open01 == mode = "gen" => \A g \in DOMAIN gens : LET x == gens[g] IN (Quasi(x.kind) /\ x.hist # <<>> /\ (x.kind = "faure" => x.seed > 0)) => RLt(0, Uniform(x, x.n)) /\ RLt(Uniform(x, x.n), 1)
Complete == Emit /\ Len(h) = MaxOps => PrintT(<<"HIST", ToJson(h)>>)
=============================================================================
