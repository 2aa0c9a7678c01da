----------------------------- MODULE QuadTrace ------------------------------
EXTENDS Quad
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
\* a Gauss rule: n distinct nodes inside, positive weights, exact to degree 2n-1
VRule(e) ==
    LET n == e.n  x == e.x  w == e.wt
        y == IF e.a = "none" THEN x ELSE TLCEval([i \in 1..Len(x) |-> HSub(HDiv(HMul("2", HSub(x[i], e.a)), HSub(e.b, e.a)), "1")])
        s == IF e.a = "none" THEN "1" ELSE HDiv(HSub(e.b, e.a), "2")
        pw == TLCEval([i \in 1..Len(x) |-> [k \in 0..2 * n - 1 |-> HMul(w[i], HPow(y[i], k))]])
    IN  IF e.kind # "ok" THEN IF e.wfun \in 1..9 THEN {"returns-rule"} ELSE If(e.kind = "ValueError", "refused")
        ELSE IF e.wfun \notin 1..9 THEN {"refused"}
        ELSE {}
             \cup If(Len(x) = n /\ Len(w) = n, "number-of-nodes")
             \cup If(\A i \in 1..Len(x) : HIsFinite(x[i]) /\ Inside(e.wfun, y[i]) /\ HLt("0", w[i]) /\ \A j \in 1..i - 1 : HLt("1e-9", HAbs(HSub(y[i], y[j]))), "nodes-and-weights")
             \cup If(Len(x) = n /\ Len(w) = n /\ \A k \in 0..2 * n - 1 :
                       HClose(HSum([i \in 1..n |-> pw[i][k]]), HMul(s, Moment(e.wfun, k, e.al, e.be)), HMul(e.tol, HMax(HMul(s, Moment(e.wfun, 0, e.al, e.be)), HSum([i \in 1..n |-> HAbs(pw[i][k])]))), "0"), "exact-to-degree-2n-1")
\* gaussq of a polynomial in the standardized variable, times the argument p
VGauss(e) ==
    LET N == Len(e.lo)
        H(i) == IF e.wfun \in {1, 4, 5, 6} THEN HDiv(HSub(e.hi[i], e.lo[i]), "2") ELSE HSub(e.hi[i], e.lo[i])
        M == TLCEval([k \in 1..Len(e.c) |-> Moment(e.wfun, k - 1, e.al, e.be)])
        V(i) == HMul(e.p[i], HMul(Scale(e.wfun, H(i), e.al, e.be), HDot(e.c, M)))
        A(i) == HMul(HAbs(e.p[i]), HMul(Scale(e.wfun, HAbs(H(i)), e.al, e.be), HSum([k \in 1..Len(e.c) |-> HAbs(HMul(e.c[k], IF HEq(M[k], "0") THEN "1" ELSE M[k]))])))
    IN  IF e.kind # "ok" THEN {"integrates"}
        ELSE If(e.shape, "shape")
             \cup If(Len(e.r) = N /\ \A i \in 1..N : HClose(e.r[i], V(i), HMul("1e-9", HAdd(A(i), "1e-300")), "0"), "integral-of-polynomial")
\* the other integrators, of polynomials: exact up to rounding
VPoly(e) ==
    IF e.kind # "ok" THEN {"integrates"}
    ELSE If(Len(e.r) = Len(e.lo) /\ \A i \in 1..Len(e.lo) :
              HClose(e.r[i], PolyInt(e.c, e.lo[i], e.hi[i]), HAdd(e.tol, HMul("1e-12", PolyAbs(e.c, e.lo[i], e.hi[i]))), e.rtol), "integral-of-polynomial")
\* smooth functions with known integrals: within the requested tolerance
VSmooth(e) ==
    LET E(a, b, c) == HDiv(HSub(HExp(HMul(c, b)), HExp(HMul(c, a))), c)
        v == CASE e.what = "exp" -> E(e.lo, e.hi, e.c)
               [] e.what = "expinf" -> HDiv(HExp(HNeg(HMul(e.c, e.lo))), e.c)                 \* exp(-c x) from lo to infinity
               [] e.what = "expminf" -> HDiv(HExp(HMul(e.c, e.hi)), e.c)                      \* exp(c x) from -infinity to hi
               [] e.what = "gauss" -> HSqrt(HDiv(HPi, e.c))                                   \* exp(-c x^2) on the line
               [] e.what = "cos" -> HDiv(HSub(HSin(HMul(e.c, e.hi)), HSin(HMul(e.c, e.lo))), e.c)
        w == IF e.reverse THEN HNeg(v) ELSE v
    IN  IF e.kind # "ok" THEN {"integrates"} ELSE If(Len(e.r) = 1 /\ HClose(e.r[1], w, e.atol, e.rtol), "within-tolerance")
VOsc(e) ==
    LET q == IF e.g = "t" THEN HSum([k \in 1..1 |-> "0"]) ELSE "0"
        v == IF e.g = "t" THEN <<HSum([k \in 1..Len(e.c) |-> HMul(e.c[k], Osc(k - 1, e.w, e.lo, e.hi)[1])]), HSum([k \in 1..Len(e.c) |-> HMul(e.c[k], Osc(k - 1, e.w, e.lo, e.hi)[2])])>>
             ELSE OverI(CSub(Cis(HMul(e.w, HPow(e.hi, 2))), Cis(HMul(e.w, HPow(e.lo, 2)))), e.w)      \* 2t exp(i w t^2)
    IN  IF e.kind # "ok" THEN {"integrates"} ELSE If(HClose(e.re, v[1], e.tol, "0") /\ HClose(e.im, v[2], e.tol, "0"), "oscillating-integral")
Verdict(s, e) ==
    CASE e.op = "rule" -> VRule(e)
      [] e.op = "gaussq" -> VGauss(e)
      [] e.op = "poly" -> VPoly(e)
      [] e.op = "smooth" -> VSmooth(e)
      [] e.op = "osc" -> VOsc(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
