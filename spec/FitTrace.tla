------------------------------ MODULE FitTrace ------------------------------
EXTENDS Fit
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
\* free: positions of the parameters that were estimated
VFit(e) ==
    LET n == e.name  th == e.th  x == e.x  m == Len(x)  F == e.free  nf == Len(F)
        Isfree(i) == \E q \in 1..nf : F[q] = i
        f(t) == Obj(e.mps, n, t, x)
        H == TLCEval([a \in 1..nf |-> [b \in 1..nf |-> HNeg(Curv(f, th, F[a], F[b]))]])
        g == TLCEval([a \in 1..nf |-> Slope1(f, th, F[a])])
        lps == TLCEval(LogSpacing(n, th, x))  ll == TLCEval(LogLike(n, th, x))
        se(i) == HSqrt(e.cov[i][i])
        C(a, b) == e.cov[F[a]][F[b]]
    IN  IF e.kind # "ok" THEN {"fits"}
        ELSE IF \E k \in 1..m : ~Inside(n, th, x[k]) THEN {"in-support"}
        ELSE If(\A i \in 1..Len(th) : Isfree(i) \/ HEq(th[i], e.given[i]), "fixed-parameters")
             \cup If(\A i \in 1..Len(th) : IF Isfree(i) \/ nf = Len(th) THEN ~HIsFinite(e.fix[i]) ELSE HEq(e.fix[i], e.given[i]), "reported-as-fixed")
             \cup If(HClose(e.LL, ll, "1e-7", "1e-9"), "log-likelihood") \cup If(HClose(e.LPS, lps, "1e-6", "1e-8"), "log-spacing")
             \cup If(~e.search \/ \A a \in 1..nf : HLt("0", e.cov[F[a]][F[a]]) /\ HLe(HMul(HAbs(g[a]), se(F[a])), "0.05"), "optimum")
             \cup If(\A i \in 1..Len(th), j \in 1..Len(th) : (~Isfree(i) \/ ~Isfree(j)) => HEq(e.cov[i][j], "0"), "covariance-of-fixed")
             \cup If(~e.search \/ \A a \in 1..nf, b \in 1..nf : HClose(HSum([q \in 1..nf |-> HMul(H[a][q], C(q, b))]), IF a = b THEN "1" ELSE "0", HMul("0.01", HAdd("1", HMul(HSqrt(HAbs(HMul(H[a][a], C(b, b)))), "1"))), "0"), "covariance")
             \cup If(HClose(HPhi(e.z), HSub("1", HDiv(e.alpha, "2")), "1e-12", "0") /\ (e.search => \A i \in 1..Len(th) : HClose(e.lower[i], HSub(th[i], HMul(e.z, se(i))), "1e-9", "1e-9") /\ HClose(e.upper[i], HAdd(th[i], HMul(e.z, se(i))), "1e-9", "1e-9")), "bounds")
             \cup If(HClose(e.pvalue, PValue(lps, m, nf), "1e-4", "0"), "p-value")
\* a profile: w: the parameters that are optimal with the profiled quantity held at arg (found outside, verified here)
Constraint(e, t, arg) == IF e.what = "par" THEN [t EXCEPT ![e.i] = arg]
                         ELSE IF e.what = "quantile" THEN [t EXCEPT ![e.i] = Link(e.name, t, e.i, arg, e.lsf)]
                         ELSE [t EXCEPT ![e.i] = Link(e.name, t, e.i, e.q, arg)]
ProfileAt(e, w, arg) ==
    LET f(t) == Obj(e.mps, e.name, Constraint(e, t, arg), e.x)
        F == SelectSeq(e.free, LAMBDA i : i # e.i)
    IN  [v |-> f(w), stationary |-> \A a \in 1..Len(F) : HLe(HMul(HAbs(Slope1(f, w, F[a])), e.se[F[a]]), "1e-3") /\ HLt(Curv(f, w, F[a], F[a]), "0")]
VProfile(e) ==
    LET P == TLCEval([k \in 1..Len(e.arg) |-> ProfileAt(e, e.w[k], e.arg[k])])
        B == TLCEval([k \in 1..Len(e.bounds) |-> ProfileAt(e, e.wb[k], e.bounds[k])])
        top == Obj(e.mps, e.name, e.th, e.x)
        level == HSub(top, HDiv(e.chi, "2"))
    IN  IF e.kind # "ok" THEN {"profiles"}
        ELSE IF (\E k \in 1..Len(P) : ~P[k].stationary) \/ (\E k \in 1..Len(B) : ~B[k].stationary) THEN (IF e.strict THEN {"witness"} ELSE {})
        ELSE If(\A k \in 1..Len(P) : HClose(e.data[k], P[k].v, "2e-3", "0"), "profile")
             \cup If(HClose(e.top, top, "1e-3", "0"), "maximum")
             \cup If(HClose(HGammaP("0.5", HDiv(e.chi, "2")), HSub("1", e.alpha), "1e-9", "0"), "level")
             \cup If(Len(B) = 2 /\ HLt(e.bounds[1], e.best) /\ HLt(e.best, e.bounds[2]) /\ \A k \in 1..2 : HClose(B[k].v, level, "0.1", "0"), "bounds")
             \cup If(e.increasing, "increasing")
VLink(e) == IF e.kind # "ok" THEN {"evaluates"}
            ELSE IF ~HIsFinite(e.r) \/ (e.i # Len(e.th) - 1 /\ HLe(e.r, "0")) THEN {"link"}
            ELSE If(HClose(Sf(e.name, [e.th EXCEPT ![e.i] = e.r], e.x), HExp(e.lsf), "1e-12", "1e-8"), "link")
Verdict(s, e) == CASE e.op = "fit" -> VFit(e) [] e.op = "profile" -> VProfile(e) [] e.op = "link" -> VLink(e)
      [] e.op = "refuse" -> If(e.kind = e.want, "refused")
      [] e.op = "near" -> IF e.kind # "ok" THEN {"evaluates"} ELSE If(Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.b) : HClose(e.a[i], e.b[i], "3e-3", "3e-3"), e.what)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
