-------------------------------- MODULE Poly --------------------------------
(* Polynomials in power and Chebyshev form (coefficients from the highest    *)
(* degree down), over the high precision reals.                              *)
EXTENDS LinAlg
RECURSIVE HornerR(_, _, _)
HornerR(p, x, i) == IF i = 0 THEN "0" ELSE HAdd(HMul(HornerR(p, x, i - 1), x), p[i])
PVal(p, x) == HornerR(p, x, Len(p))
\* size of the terms, for a tolerance
PMag(p, x) == PVal([i \in 1..Len(p) |-> HAbs(p[i])], HAbs(x))
PDer1(p) == IF Len(p) <= 1 THEN <<>> ELSE TLCEval([i \in 1..(Len(p) - 1) |-> HMul(HReal(Len(p) - i), p[i])])
RECURSIVE PDer(_, _)
PDer(p, m) == IF m = 0 THEN p ELSE PDer(PDer1(p), m - 1)
PInt1(p, k) == TLCEval([i \in 1..(Len(p) + 1) |-> IF i <= Len(p) THEN HDiv(p[i], HReal(Len(p) + 1 - i)) ELSE k])
RECURSIVE PInt(_, _, _)
PInt(p, m, ks) == IF m = 0 THEN p ELSE PInt(PInt1(p, ks[1]), m - 1, Tail(ks))
MapFrom(x, a, b) == HDiv(HSub(HMul("2", x), HAdd(a, b)), HSub(b, a))
MapTo(t, a, b) == HDiv(HAdd(HMul(t, HSub(b, a)), HAdd(a, b)), "2")
\* Chebyshev polynomials T_0..T_n (kind 1) or U_0..U_n (kind 2) in t, by the recursion
RECURSIVE ChebSeq(_, _, _)
ChebSeq(n, t, kind) ==
    IF n = 0 THEN <<"1">>
    ELSE IF n = 1 THEN <<"1", HMul(HReal(kind), t)>>
    ELSE LET s == ChebSeq(n - 1, t, kind) IN s \o <<HSub(HMul(HMul("2", t), s[n]), s[n - 1])>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
CVal(ck, t, kind) == HDot(Rev(ck), ChebSeq(Len(ck) - 1, t, kind))
SumAbs(s) == IF s = <<>> THEN "0" ELSE HSum([i \in 1..Len(s) |-> HAbs(s[i])])
\* power form of T_n / U_n, highest power first
PAddLow(p, q) == LET n == Len(p)  m == Len(q) IN   \* n >= m
    [i \in 1..n |-> IF i <= n - m THEN p[i] ELSE HAdd(p[i], q[i - (n - m)])]
RECURSIVE ChebPow(_, _)
ChebPow(n, kind) ==
    IF n = 0 THEN <<"1">> ELSE IF n = 1 THEN <<HReal(kind), "0">>
    ELSE LET a == ChebPow(n - 1, kind)  b == ChebPow(n - 2, kind)
         IN  TLCEval(PAddLow([i \in 1..(n + 1) |-> IF i <= n THEN HMul("2", a[i]) ELSE "0"], [i \in 1..Len(b) |-> HNeg(b[i])]))
=============================================================================
