----------------------------- MODULE GaussTrace -----------------------------
EXTENDS Gauss
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
VCdf2(e) == IF e.kind # "ok" \/ Len(e.got) # Len(e.h) THEN {"evaluates"}
            ELSE If(\A k \in 1..Len(e.h) : IF HLt("1", HAbs(e.r[k])) THEN ~HIsFinite(e.got[k]) ELSE HIsFinite(e.got[k]) /\ HClose(e.got[k], Phi2(e.h[k], e.k[k], e.r[k]), "1e-13", "0"), "distribution-function")
VBox2(e) == IF e.kind # "ok" THEN {"evaluates"} ELSE If(HClose(e.got, Box2(e.a, e.b, e.r), "1e-12", "0"), "rectangle")
VProduct(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET want == IF e.df > 0 THEN HSub(StudentCdf(e.b[1], e.df), StudentCdf(e.a[1], e.df)) ELSE IF e.n = 2 THEN Box2(e.a, e.b, HMul(e.rho[1], e.rho[2])) ELSE BoxProduct(e.rho, e.a, e.b)
         IN  If(HClose(e.got, want, e.tol, "0"), "rectangle") \cup If(e.flag = 0 => HLe(HAbs(HSub(e.got, want)), HAdd(HMul("2", e.err), "1e-9")), "error-bound")
\* rind: one value per value that is conditioned on
VRind(e) ==
    LET D == {e.d[q] : q \in 1..Len(e.d)}
        n == Len(e.m)
        want(k) == IF e.nc = 1 THEN Given(e.m, e.S, e.a[k], e.b[k], D, e.xc[k]) ELSE IF n = 1 THEN Expect1(e.m, e.S, e.a[k], e.b[k], D) ELSE Expect2(e.m, e.S, e.a[k], e.b[k], D)
    IN  IF e.kind # "ok" \/ Len(e.got) # Len(e.a) THEN {"evaluates"}
        ELSE If(\A k \in 1..Len(e.a) : HClose(e.got[k], want(k), HAdd(e.tol, HMul("4", HAdd(e.err[k], e.terr[k]))), "2e-3"), "expectation")
             \cup If(\A k \in 1..Len(e.a) : HLe(e.err[k], HAdd(HMul("20", e.tol), HMul("0.05", want(k)))), "error-estimate")
VMaxima(e) == IF e.kind # "ok" THEN {"evaluates"} ELSE If(\A k \in 1..Len(e.x) : HClose(e.got[k], MaximaCdf(e.x[k], e.alpha, e.m0), "1e-12", "1e-9"), "maxima")
Verdict(s, e) == CASE e.op = "cdf2" -> VCdf2(e) [] e.op = "box2" -> VBox2(e) [] e.op = "product" -> VProduct(e) [] e.op = "rind" -> VRind(e) [] e.op = "maxima" -> VMaxima(e)
      [] e.op = "refuse" -> If(e.kind = e.want, "refused")
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
