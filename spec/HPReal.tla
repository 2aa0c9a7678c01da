------------------------------- MODULE HPReal -------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is carried as a decimal string ("-1.5E-3",*)
(* "nan", "inf", "-inf"); arithmetic is carried out to 60 significant      *)
(* digits by java/HPReal.java, which TLC loads as this module's override,  *)
(* so that sums and products of recorded doubles are exact for all         *)
(* practical purposes and every tolerance in a specification is explicit.  *)
(* The right hand sides below only document the meaning.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Opaque == CHOOSE x \in {"0"} : TRUE

HReal(a)      == Opaque   \* canonical form of a numeral or an integer
HFrac(p, q)   == Opaque   \* p/q
HIsFinite(a)  == TRUE
HAdd(a, b)    == Opaque
HSub(a, b)    == Opaque
HMul(a, b)    == Opaque
HDiv(a, b)    == Opaque
HNeg(a)       == Opaque
HAbs(a)       == Opaque
HLt(a, b)     == TRUE     \* false when a nan is involved
HLe(a, b)     == TRUE
HEq(a, b)     == TRUE
HMax(a, b)    == Opaque
HMin(a, b)    == Opaque
HClose(a, b, at, rt)    == TRUE   \* |a-b| <= at + rt*|b|; nan ~ nan, inf ~ inf
HAllClose(a, b, at, rt) == TRUE   \* same length and elementwise HClose
HSum(s)       == Opaque   \* sum of a sequence
HDot(s, t)    == Opaque   \* inner product of two sequences
HFloor(a)     == 0        \* an integer
HPow(a, n)    == Opaque   \* integer power
HSqrt(a)      == Opaque
HPi           == Opaque
HExp(a)       == Opaque
HLog(a)       == Opaque
HSin(a)       == Opaque
HCos(a)       == Opaque
HTanh(a)      == Opaque
HRPow(a, b)   == Opaque   \* a^b for a > 0
HPhi(a)       == Opaque   \* standard normal distribution function
HLGamma(a)    == Opaque   \* log of the gamma function, a > 0
HGammaP(a, x) == Opaque   \* regularized lower incomplete gamma function
HBetaI(a, b, x) == Opaque \* regularized incomplete beta function
HAtan(a)      == Opaque
HMean(s)      == Opaque   \* mean of a sequence
HSolve(A, b)  == <<>>     \* the x with A x = b, A a sequence of rows; <<>> if A is singular
=============================================================================
