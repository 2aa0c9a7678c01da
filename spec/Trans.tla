------------------------------- MODULE Trans --------------------------------
(* Transformations between a Gaussian process and the observed one.          *)
EXTENDS HPReal, Integers, Sequences, FiniteSets, TLC, SequencesExt
N2(x, a, s) == HDiv(HSub(x, a), s)
\* piecewise linear function through (x_i, f_i), x increasing, prolonged linearly outside
PL(x, f, u) ==
    LET n == Len(x)  c == {i \in 2..n - 1 : HLe(x[i], u)}
        i == IF c = {} THEN 1 ELSE CHOOSE k \in c : \A j \in c : j <= k
    IN  HAdd(f[i], HMul(HSub(f[i + 1], f[i]), HDiv(HSub(u, x[i]), HSub(x[i + 1], x[i]))))
\* PL restricted to the range of x
PLIn(x, f, u) == IF HLt(u, x[1]) THEN f[1] ELSE IF HLt(x[Len(x)], u) THEN f[Len(x)] ELSE PL(x, f, u)
SortX(x) == SortSeq([i \in 1..Len(x) |-> i], LAMBDA i, j : HLt(x[i], x[j]))
Span(x) == HSub(x[Len(x)], x[1])
Uniform(x) == \A i \in 1..Len(x) - 2 : HLe(HAbs(HSub(HAdd(x[i + 2], x[i]), HMul("2", x[i + 1]))), HMul("1e-13", Span(x)))
Step(x, m) == HDiv(Span(x), HReal(m - 1))
Grid(x, m) == TLCEval([i \in 1..m |-> HAdd(x[1], HMul(HReal(i - 1), Step(x, m)))])
\* the efficient transformation: uniform, with m points (as given if it is already)
GoodX(x, m) == IF Uniform(x) /\ m = Len(x) THEN x ELSE Grid(x, m)
GoodF(x, f, m) == IF Uniform(x) /\ m = Len(x) THEN f ELSE LET g == Grid(x, m) IN TLCEval([i \in 1..m |-> PLIn(x, f, g[i])])
\* differences of a table, at the midpoints
MidX(x) == TLCEval([i \in 1..Len(x) - 1 |-> HDiv(HAdd(x[i], x[i + 1]), "2")])
MidF(f, h) == TLCEval([i \in 1..Len(f) - 1 |-> HDiv(HSub(f[i + 1], f[i]), h)])
RECURSIVE DerX(_, _), DerF(_, _, _)
DerX(x, k) == IF k = 0 THEN x ELSE MidX(DerX(x, k - 1))
DerF(f, h, k) == IF k = 0 THEN f ELSE MidF(DerF(f, h, k - 1), h)
\* chain rule: time derivatives of f(x(t)) from the derivatives d of f and x1..x4 of x
Chain(d, x, k) ==
    CASE k = 1 -> HMul(d[1], x[1])
      [] k = 2 -> HAdd(HMul(d[2], HPow(x[1], 2)), HMul(d[1], x[2]))
      [] k = 3 -> HSum(<<HMul(d[3], HPow(x[1], 3)), HMul(d[1], x[3]), HMul("3", HMul(d[2], HMul(x[1], x[2])))>>)
      [] k = 4 -> HSum(<<HMul(d[4], HPow(x[1], 4)), HMul(d[1], x[4]), HMul("6", HMul(d[3], HMul(HPow(x[1], 2), x[2]))),
                         HMul(d[2], HAdd(HMul("3", HPow(x[2], 2)), HMul("4", HMul(x[1], x[3]))))>>)
\* Hermite: coefficients <<c3, c4>> of the model
Small(c) == IF HLt(HAbs(c), "1.4901161193847656e-08") THEN "0" ELSE c
HermC(s, k, par) ==   \* k: excess kurtosis
    IF HLe(k, "0") THEN <<HDiv(s, "6"), Small(HDiv(k, "24"))>>
    ELSE IF par = 2
    THEN LET c4 == HDiv(HSub(HSqrt(HAdd("1", HMul("1.5", k))), "1"), "18") IN <<HDiv(s, HMul("6", HAdd("1", HMul("6", c4)))), Small(c4)>>
    ELSE LET c3 == HDiv(HMul(HDiv(s, "6"), HAdd(HSub("1", HMul("0.015", HAbs(s))), HMul("0.3", HPow(s, 2)))), HAdd("1", HMul("0.2", k)))
             b == HSub("1", HDiv(HMul("1.43", HPow(s, 2)), k))
             ex == HSub("1", HMul("0.1", HRPow(HAdd(k, "3"), "0.8")))
         IN  IF HLe(b, "0") THEN <<"nan", "nan">>
             ELSE <<c3, Small(HMul(HMul("0.1", HSub(HRPow(HAdd("1", HMul("1.25", k)), HDiv("1", "3")), "1")), HRPow(b, ex)))>>
\* polynomial, lowest power first: observed -> Gaussian when hardening, Gaussian -> observed when softening
HermP(s, k, par) ==
    LET c == HermC(s, k, par)  c3 == c[1]  c4 == c[2]
        km == HSqrt(HSum(<<"1", HMul("2", HPow(c3, 2)), HMul("6", HPow(c4, 2))>>))
    IN  IF HLe(k, "0") THEN <<c3, HAdd("1", HMul("3", c4)), HNeg(c3), HNeg(c4)>>
        ELSE <<HDiv(HNeg(c3), km), HDiv(HSub("1", HMul("3", c4)), km), HDiv(c3, km), HDiv(c4, km)>>
PolyV(p, x) == HSum([i \in 1..4 |-> HMul(p[i], HPow(x, i - 1))])
\* turning points of the cubic, in increasing order
Turns(p) ==
    LET a == HMul("3", p[4])  b == HMul("2", p[3])  c == p[2]  d == HSub(HPow(b, 2), HMul("4", HMul(a, c)))
    IN  IF HEq(a, "0") THEN (IF HEq(b, "0") THEN <<>> ELSE <<HNeg(HDiv(c, b))>>)
        ELSE IF HLe(d, "0") THEN <<>>
        ELSE LET r1 == HDiv(HSub(HNeg(b), HSqrt(d)), HMul("2", a))  r2 == HDiv(HAdd(HNeg(b), HSqrt(d)), HMul("2", a))
             IN  IF HLt(r1, r2) THEN <<r1, r2>> ELSE <<r2, r1>>
\* on the monotonic part that contains zero
SameSide(p, y) == LET t == Turns(p) IN \A i \in 1..Len(t) : (HLt("0", t[i]) => HLe(y, HAdd(t[i], "1e-6"))) /\ (HLt(t[i], "0") => HLe(HSub(t[i], "1e-6"), y))
\* x is a value of that part
Reached(p, x) ==
    LET t == Turns(p)
        lo == {i \in 1..Len(t) : HLt(t[i], "0")}  hi == {i \in 1..Len(t) : HLt("0", t[i])}
    IN  /\ lo # {} => HLt(PolyV(p, t[CHOOSE i \in lo : \A j \in lo : j <= i]), HSub(x, "1e-9"))
        /\ hi # {} => HLt(HAdd(x, "1e-9"), PolyV(p, t[CHOOSE i \in hi : \A j \in hi : i <= j]))
\* Ochi: v the squared normalizing deviation, a its parameter
OchiV(v, s) == HClose(HMul(HSqrt(HMul("2", HSub(v, "1"))), HSub("4", v)), HAbs(s), "1e-25", "0") /\ HLe("1", v) /\ HLe(v, "2")
OchiA(v, s) == LET a == HDiv(HSqrt(HDiv(HSub(v, "1"), "2")), v) IN IF HLt(s, "0") THEN HNeg(a) ELSE a
OchiRoot(v, a) == HSqrt(HSub("1", HMul("4", HMul(HPow(a, 2), v))))
OchiMeanDoc(v, a) == HDiv(HSub(OchiRoot(v, a), "1"), HMul("2", a))
OchiMean(v, a) == HNeg(HDiv(HMul(HPow(a, 2), v), HAdd("1", OchiRoot(v, a))))
OchiG(v, s, x) ==
    LET a == OchiA(v, s)  g == IF HLt(x, "0") THEN HMul("3", a) ELSE HMul("1.28", a)
    IN  HDiv(HSub(HDiv(HSub("1", HExp(HNeg(HMul(g, x)))), g), OchiMean(v, a)), HSqrt(v))
OchiInv(v, s, y) ==
    LET a == OchiA(v, s)  z == HAdd(HMul(HSqrt(v), y), OchiMean(v, a))  g == IF HLt(z, "0") THEN HMul("3", a) ELSE HMul("1.28", a)
    IN  HNeg(HDiv(HLog(HSub("1", HMul(g, z))), g))
Trap(x, y) == HSum([i \in 1..Len(x) - 1 |-> HMul(HSub(x[i + 1], x[i]), HDiv(HAdd(y[i], y[i + 1]), "2"))])
=============================================================================
