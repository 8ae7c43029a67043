-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact real arithmetic for the specification.  A number is written as a  *)
(* decimal ("0.05"), a fraction ("3/8"), a C99 hexadecimal double          *)
(* ("0x1.8p+1", read exactly) or an integer.  Results are canonical        *)
(* fractions, so equal numbers are equal values.  The definitions below    *)
(* say what each operator denotes; TLC evaluates them through              *)
(* java/RatOverrides.java (BigInteger rationals; exp, log, sqrt and Phi    *)
(* are enclosed to better than 2^-180).  RatTest.tla checks the algebraic  *)
(* laws the overrides have to satisfy.                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

R(x)          == x                 \* canonical form
IsNum(x)      == TRUE              \* FALSE for "nan", "inf", "-inf", "none", ...
RAdd(x, y)    == x + y
RSub(x, y)    == x - y
RMul(x, y)    == x * y
RDiv(x, y)    == CHOOSE z \in {} : z * y = x
RNeg(x)       == -x
RLt(x, y)     == x < y
RLe(x, y)     == x <= y
REq(x, y)     == x = y
RAbs(x)       == IF RLt(x, 0) THEN RNeg(x) ELSE x
RMax(x, y)    == IF RLe(y, x) THEN x ELSE y
RMin(x, y)    == IF RLe(x, y) THEN x ELSE y
RECURSIVE RPow(_, _)
RPow(x, k)    == IF k = 0 THEN 1 ELSE RMul(x, RPow(x, k - 1))
RECURSIVE RSum(_)
RSum(s)       == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(s, t)    == IF s = <<>> THEN 0 ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))
RSeqMax(s)    == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : RLe(s[i], m)
RSeqMin(s)    == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : RLe(m, s[i])
RExp(x)       == CHOOSE y \in {} : TRUE       \* e^x
RLog(x)       == CHOOSE y \in {} : TRUE       \* natural logarithm, x > 0
RSqrt(x)      == CHOOSE y \in {} : TRUE       \* square root, x >= 0
RPhi(x)       == CHOOSE y \in {} : TRUE       \* standard normal distribution function
RRound(x, k)  == x                            \* nearest multiple of 2^-k
RClose(x, y, tol) == RLe(RAbs(RSub(x, y)), RMul(tol, RMax(1, RAbs(y))))
RShow(x)      == x                            \* decimal rendering (messages only)
=============================================================================
