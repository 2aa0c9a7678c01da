-------------------------------- MODULE Fit ---------------------------------
(* Fitting a law: likelihood and product of spacings, their derivatives      *)
(* (differences at 60 digits), and the scores of an estimate.                *)
EXTENDS Laws
LogLike(n, th, x) == HSum([k \in 1..Len(x) |-> LogPdf(n, th, x[k])])
\* x increasing; a tie is scored with the density
LogSpacing(n, th, x) ==
    LET F == TLCEval([k \in 1..Len(x) |-> Cdf(n, th, x[k])])  m == Len(x)
    IN  HSum([k \in 1..m + 1 |-> IF k = 1 THEN HLog(F[1]) ELSE IF k = m + 1 THEN HLog(Sf(n, th, x[m]))
                                 ELSE IF HEq(x[k], x[k - 1]) THEN LogPdf(n, th, x[k]) ELSE HLog(HSub(F[k], F[k - 1]))])
Obj(mps, n, th, x) == IF mps THEN LogSpacing(n, th, x) ELSE LogLike(n, th, x)
Eps == "1e-15"
Shift(th, i, d) == [th EXCEPT ![i] = HAdd(@, d)]
\* slope and curvature of f along the free coordinates
Slope1(f(_), th, i) == HDiv(HSub(f(Shift(th, i, Eps)), f(Shift(th, i, HNeg(Eps)))), HMul("2", Eps))
Curv(f(_), th, i, j) ==
    IF i = j THEN HDiv(HAdd(HSub(f(Shift(th, i, Eps)), HMul("2", f(th))), f(Shift(th, i, HNeg(Eps)))), HPow(Eps, 2))
    ELSE HDiv(HSub(HAdd(f(Shift(Shift(th, i, Eps), j, Eps)), f(Shift(Shift(th, i, HNeg(Eps)), j, HNeg(Eps)))),
                   HAdd(f(Shift(Shift(th, i, Eps), j, HNeg(Eps))), f(Shift(Shift(th, i, HNeg(Eps)), j, Eps)))), HMul("4", HPow(Eps, 2)))
\* Moran's statistic: p-value of a fit of k parameters to m observations with log product of spacings lps
PValue(lps, m, k) ==
    LET m1 == HReal(m + 1)
        mean == HSub(HSub(HMul(m1, HAdd(HLog(m1), Gamma0)), "0.5"), HDiv("1", HMul("12", m1)))
        vr == HSub(HSub(HMul(m1, HSub(HDiv(HPow(HPi, 2), "6"), "1")), "0.5"), HDiv("1", HMul("6", m1)))
        c1 == HSub(mean, HSqrt(HMul(HDiv(HReal(m), "2"), vr)))  c2 == HSqrt(HDiv(vr, HMul("2", HReal(m))))
        t == HDiv(HSub(HAdd(HNeg(lps), HDiv(HReal(k), "2")), c1), c2)
    IN  IF HLe(t, "0") THEN "1" ELSE One(HGammaP(HDiv(HReal(m), "2"), HDiv(t, "2")))
\* the parameter that gives exceedance exp(lsf) of x, the others as in th
ZQ(n, s, lsf) ==
    LET h == HNeg(lsf)  r == HNeg(HLog(One(HExp(lsf))))
    IN  CASE n = "expon" -> h
          [] n = "rayleigh" -> HSqrt(HMul("2", h))
          [] n = "weibull_min" -> HRPow(h, HDiv("1", s[1]))
          [] n = "truncrayleigh" -> HSub(HSqrt(HAdd(HPow(s[1], 2), HMul("2", h))), s[1])
          [] n = "genpareto" -> IF HEq(s[1], "0") THEN h ELSE HDiv(HSub(HExp(HMul(s[1], h)), "1"), s[1])
          [] n = "gumbel_r" -> HNeg(HLog(r))
          [] n = "genextreme" -> IF HEq(s[1], "0") THEN HNeg(HLog(r)) ELSE HDiv(One(HRPow(r, s[1])), s[1])
          [] n = "exponweib" -> HRPow(HNeg(HLog(One(HExp(HNeg(HDiv(r, s[1])))))), HDiv("1", s[2]))
          [] n = "burr" -> HRPow(HSub(HExp(HDiv(r, s[2])), "1"), HNeg(HDiv("1", s[1])))
Link(n, th, i, x, lsf) ==
    LET m == Len(th)  z == Zof(th, x)
    IN  IF i = m - 1 THEN HSub(x, HMul(th[m], ZQ(n, Shapes(th), lsf)))
        ELSE IF i = m THEN HDiv(HSub(x, th[m - 1]), ZQ(n, Shapes(th), lsf))
        ELSE CASE n = "weibull_min" -> HDiv(HLog(HNeg(lsf)), HLog(z))
               [] n = "truncrayleigh" -> HSub(HDiv(HNeg(lsf), z), HDiv(z, "2"))
=============================================================================
