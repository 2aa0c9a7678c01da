----------------------------- MODULE TransTrace -----------------------------
EXTENDS Trans
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
Back(p, x) == HAdd(HMul(x, p.ysigma), p.ymean)       \* standardized -> Gaussian world
Forth(p, x) == HAdd(HMul(x, p.sigma), p.mean)        \* standardized -> observed
InX(p, x) == N2(x, p.mean, p.sigma)
InY(p, y) == N2(y, p.ymean, p.ysigma)
Scale(p) == IF HLt(p.sigma, p.ysigma) THEN p.ysigma ELSE p.sigma
Near(a, b, t) == Len(a) = Len(b) /\ HAllClose(a, b, t, "1e-9")
VLin(e) ==
    LET p == e.p  q == HDiv(p.ysigma, p.sigma)  k == IF e.dir = "fwd" THEN q ELSE HDiv("1", q)
        F(x) == IF e.dir = "fwd" THEN Back(p, InX(p, x)) ELSE Forth(p, InY(p, x))
    IN  IF e.r.kind # "ok" THEN {"transforms"}
        ELSE If(Near(e.r.v[1], [i \in 1..Len(e.x) |-> F(e.x[i])], "1e-9"), "linear-transformation")
             \cup If(Len(e.r.v) = Len(e.xi) + 1 /\ \A d \in 1..Len(e.xi) : Near(e.r.v[d + 1], [i \in 1..Len(e.x) |-> HMul(k, e.xi[d][i])], "1e-9"), "derivatives")
VOchi(e) ==
    LET p == e.p  zero == HEq(e.skew, "0")
        G(x) == IF zero THEN x ELSE OchiG(e.v, e.skew, x)  H(y) == IF zero THEN y ELSE OchiInv(e.v, e.skew, y)
        F(x) == IF e.dir = "fwd" THEN Back(p, G(InX(p, x))) ELSE Forth(p, H(InY(p, x)))
    IN  IF HLt("2.82842712474619", HAbs(e.skew)) THEN If(e.r.kind = "ValueError", "refused")
        ELSE IF ~zero /\ ~OchiV(e.v, e.skew) THEN {"MACHINERY-witness"}
        ELSE IF e.r.kind # "ok" THEN {"transforms"}
        ELSE If(Near(e.r.v[1], [i \in 1..Len(e.x) |-> F(e.x[i])], HMul("1e-7", Scale(p))), "exponential-transformation")
\* the documented equations of the normalizing parameters (mean2 as used: from the value in zero)
VOchiEq(e) == LET m == HNeg(HMul(e.g0, HSqrt(e.v)))
              IN IF ~OchiV(e.v, e.skew) THEN {"MACHINERY-witness"} ELSE If(HClose(m, OchiMeanDoc(e.v, OchiA(e.v, e.skew)), "1e-8", "0"), "normalizing-mean")
VHerm(e) ==
    LET p == e.p  k == HSub(e.kurt, "3")  c == HermC(e.skew, k, e.pardef)  q == HermP(e.skew, k, e.pardef)  hard == HLe(k, "0")
        t == Turns(q)
        lim == [i \in 1..Len(t) |-> IF hard THEN Forth(p, t[i]) ELSE Forth(p, PolyV(q, t[i]))]
        \* the interval of the data holds a turning point
        In(m) == (\E i \in 1..Len(e.x) : HLe(e.x[i], HAdd(m, "1e-9"))) /\ (\E i \in 1..Len(e.x) : HLe(HSub(m, "1e-9"), e.x[i]))
        direct == hard <=> e.dir = "fwd"
        u == TLCEval([i \in 1..Len(e.x) |-> IF e.dir = "fwd" THEN InX(p, e.x[i]) ELSE InY(p, e.x[i])])
        w == TLCEval([i \in 1..Len(e.r.v[1]) |-> IF e.r.v[1][i] = "nan" THEN "nan" ELSE IF e.dir = "fwd" THEN InY(p, e.r.v[1][i]) ELSE InX(p, e.r.v[1][i])])
    IN  IF c[1] = "nan" THEN If(e.r.kind = "ValueError", "refused")
        ELSE IF e.dir = "fwd" /\ \E i \in 1..Len(lim) : In(lim[i]) THEN If(e.r.kind = "ValueError", "refuses-interval-with-turning-point")
        ELSE IF e.r.kind # "ok" THEN {"transforms"}
        ELSE If(Len(e.r.v[1]) = Len(e.x) /\ \A i \in 1..Len(e.x) :
                  IF direct THEN w[i] # "nan" /\ HClose(w[i], PolyV(q, u[i]), "1e-8", "1e-8")
                  ELSE IF w[i] = "nan" THEN ~Reached(q, u[i])
                  ELSE HIsFinite(w[i]) /\ HClose(PolyV(q, w[i]), u[i], "1e-6", "1e-6") /\ SameSide(q, w[i]),
                IF direct THEN "cubic-transformation" ELSE "inverse-of-the-cubic")
\* the value of known finding F20b: positions relative to the prolonged table, counted in points of the given one
Shrunk(gx, h, x0, i) == LET n == Len(gx)  m == Len(x0)  top == x0[CHOOSE j \in 1..m : \A k \in 1..m : HLe(x0[k], x0[j])]
                            up == -HFloor(HNeg(HDiv(HSub(top, gx[n]), h)))
                        IN  HAdd(gx[1], HMul(HSub(x0[i], gx[1]), HFrac(n - 1, n - 1 + up)))
VTran(e) ==
    LET o == SortX(e.x)  x == TLCEval([i \in 1..Len(o) |-> e.x[o[i]]])  f == TLCEval([i \in 1..Len(o) |-> e.f[o[i]]])
        n == Len(x)  gx == GoodX(x, n)  gf == GoodF(x, f, n)  h == Step(x, n)  d == Len(e.xi)
        tol == HMul("1e-9", HAdd(e.big, "1"))
        D(u) == TLCEval([k \in 1..d |-> PL(DerX(gx, k), DerF(gf, h, k), u)])
    IN  IF e.r.kind # "ok" THEN {"transforms"}
        ELSE (IF Near(e.r.v[1], [i \in 1..Len(e.x0) |-> PL(gx, gf, e.x0[i])], tol) THEN {}
              ELSE IF e.where = "above" /\ Near(e.r.v[1], [i \in 1..Len(e.x0) |-> PL(gx, gf, Shrunk(gx, h, e.x0, i))], tol) THEN {"value-shrunk"} ELSE {"value"})
             \cup If(Len(e.r.v) = d + 1 /\ \A i \in 1..Len(e.x0) : LET dd == D(e.x0[i])  xs == [k \in 1..d |-> e.xi[k][i]]
                       IN \A k \in 1..d : HClose(e.r.v[k + 1][i], Chain(dd, xs, k), HMul(tol, HPow(HDiv("1", h), k)), "1e-9"), "time-derivatives")
VGood(e) ==
    LET o == SortX(e.x)  x == TLCEval([i \in 1..Len(o) |-> e.x[o[i]]])  f == TLCEval([i \in 1..Len(o) |-> e.f[o[i]]])
        n == Len(x)
        mn == IF e.minn = -1 THEN n ELSE IF e.minn < 2 THEN 2 ELSE e.minn
        again == n < mn \/ (e.maxn # -1 /\ e.maxn < n) \/ ~Uniform(x)
        m == IF ~again THEN n ELSE IF e.maxn # -1 /\ e.maxn < mn THEN e.maxn ELSE mn
        gx == GoodX(x, m)  gf == GoodF(x, f, m)  h == Step(gx, m)
        up == IF e.hi = "none" \/ HLe(e.hi, x[n]) THEN 0 ELSE -HFloor(HNeg(HDiv(HSub(e.hi, x[n]), h)))
        dn == IF e.lo = "none" \/ HLe(x[1], e.lo) THEN 0 ELSE -HFloor(HDiv(HSub(e.lo, x[1]), h))
        k == Len(e.rx)
    IN  IF e.kind # "ok" THEN {"returns-transformation"}
        ELSE If(k \in {m + up + dn, m + up + dn + 1} /\ Len(e.rf) = k, "number-of-points")
             \cup If(k < 2 \/ \A i \in 1..k : HClose(e.rx[i], HAdd(x[1], HMul(h, HReal(i - 1 - dn))), HMul("1e-9", Span(x)), "0"), "uniform-grid")
             \cup If(Len(e.rf) = k /\ \A i \in 1..k : HClose(e.rf[i], PL(gx, gf, e.rx[i]), "1e-9", "1e-9"), "interpolates-and-extrapolates")
\* a tabulated transformation: mean and deviation from the table
VTrData(e) ==
    LET n == Len(e.x)  G(u) == PL(GoodX(e.y, n), GoodF(e.y, e.x, n), u)
    IN  IF e.kind # "ok" THEN {"constructs"}
        ELSE If(HClose(e.mean, IF e.gmean # "none" THEN e.gmean ELSE G(e.ymean), "1e-9", "1e-9"), "mean")
             \cup If(HClose(e.sigma, IF e.gsigma # "none" THEN e.gsigma ELSE HDiv(HSub(G(HAdd(e.ymean, e.ysigma)), G(HSub(e.ymean, e.ysigma))), "2"), "1e-9", "1e-9"), "sigma")
VDist(e) ==
    LET p == e.p  n == e.n  xn == TLCEval([i \in 1..n |-> HAdd(e.lo, HMul(HReal(i - 1), HDiv(HSub(e.hi, e.lo), HReal(n - 1))))])
        yn == TLCEval([i \in 1..n |-> InY(p, e.y[i])])
    IN  If(Len(e.y) = n /\ HClose(e.d, Trap(xn, [i \in 1..n |-> HPow(HSub(xn[i], yn[i]), 2)]), "1e-12", "1e-9"), "distance-to-Gaussian")
        \cup If((Near(e.tx, [i \in 1..n |-> Forth(p, xn[i])], HMul("1e-9", Scale(p))) /\ Near(e.ty, yn, "1e-9")), "tabulated-transformation")
        \cup If((HClose(e.tm, p.mean, "1e-12", "1e-12") /\ HClose(e.ts, p.sigma, "1e-12", "1e-12")), "tabulated-mean-sigma")
\* parametric estimates from data
Cen(x, k) == LET m == HMean(x) IN HMean([i \in 1..Len(x) |-> HPow(HSub(x[i], m), k)])
VEst(e) ==
    LET m2 == Cen(e.x, 2)  sk == HDiv(Cen(e.x, 3), HMul(m2, HSqrt(m2)))  ku == HSub(HDiv(Cen(e.x, 4), HPow(m2, 2)), "3")
        up == HMin(HMul("4", HPow(HDiv(HMul("4", sk), "3"), 2)), "13")  lo == HMul("1.5", HPow(sk, 2))
    IN  IF e.kind # "ok" THEN {"estimates"}
        ELSE If(HClose(e.mean, HMean(e.x), "1e-9", "1e-9") /\ HClose(e.sigma, HSqrt(m2), "0", "1e-9"), "mean-sigma")
             \cup If(e.method = "linear" \/ HClose(e.skew, sk, "1e-9", "1e-9"), "skewness")
             \cup If(e.method # "hermite" \/ HClose(e.kurt, HAdd("3", HMin(up, HMax(ku, lo))), "1e-9", "1e-9"), "kurtosis")
\* empirical transformation from crossings: Gaussian quantile of the normalized cumulative crossings
VLc(e) ==
    LET n == Len(e.x)  cum == TLCEval([i \in 1..n |-> Trap(SubSeq(e.x, 1, i), SubSeq(e.c, 1, i))])
        a == IF e.intensity THEN HDiv("0.5", HReal(n)) ELSE "0.5"
        q == HAdd(cum[n], HMul("2", a))
    IN  IF e.kind # "ok" THEN {"estimates"}
        ELSE If(Near(e.ex, e.x, "0"), "levels")
             \cup If(Len(e.ey) = n /\ \A i \in 1..n : HClose(HPhi(e.ey[i]), HDiv(HAdd(cum[i], a), q), "1e-12", "1e-9"), "crossing-transformation")
             \cup If(Near(e.gx, [i \in 1..e.np |-> HAdd(e.mean, HMul(e.sigma, HAdd(e.lo, HMul(HReal(i - 1), HDiv(HSub(e.hi, e.lo), HReal(e.np - 1))))))], "1e-9"), "grid")
VCdf(e) ==
    LET n == Len(e.x)  s == SortSeq(e.x, LAMBDA a, b : HLt(a, b))
        ix == SelectSeq([i \in 1..n - 1 |-> i], LAMBDA i : HLt(s[i], s[i + 1]))
    IN  IF e.kind # "ok" THEN {"estimates"}
        ELSE If(Near(e.ex, [i \in 1..Len(ix) |-> s[ix[i]]], "0"), "levels")
             \cup If(Len(e.ey) = Len(ix) /\ \A i \in 1..Len(ix) : HClose(HPhi(e.ey[i]), HFrac(ix[i], n + 1), "1e-12", "1e-9"), "marginal-transformation")
Verdict(s, e) ==
    CASE e.op = "lin" -> VLin(e)
      [] e.op = "ochi" -> VOchi(e)
      [] e.op = "ochieq" -> VOchiEq(e)
      [] e.op = "herm" -> VHerm(e)
      [] e.op = "tran" -> VTran(e)
      [] e.op = "good" -> VGood(e)
      [] e.op = "trdata" -> VTrData(e)
      [] e.op = "dist" -> VDist(e)
      [] e.op = "est" -> VEst(e)
      [] e.op = "lc" -> VLc(e)
      [] e.op = "cdf" -> VCdf(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
