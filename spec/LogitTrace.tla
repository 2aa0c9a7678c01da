----------------------------- MODULE LogitTrace -----------------------------
EXTENDS Logit
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
Near(a, b) == HClose(a, b, "1e-9", "1e-7")
NearAll(a, b) == Len(a) = Len(b) /\ HAllClose(a, b, "1e-9", "1e-7")
Values(y) == [k \in 1..Count(y) |-> CHOOSE v \in Categories(y) : Rank(y, v) = k]
VFit(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET nz == Len(e.theta)
             nx == Len(e.beta)
             m == nz + nx
             n == Len(e.y)
             ordered == \A k \in 1..(nz - 1) : HLt(e.theta[k], e.theta[k + 1])
         IN  IF ~(nz = Count(e.y) - 1 /\ nx = Len(e.X[1]) /\ ordered) THEN {"parameters"}
             ELSE LET T == Terms(e.theta, e.beta, e.X, e.y)
                      g == Gradient(T)  H == Hessian(T)
                      par == e.theta \o e.beta
                      ll == LogLik(e.theta, e.beta, e.X, e.y)
                      mean(i) == LET v == Values(e.y) IN HSum([k \in 1..(nz + 1) |-> HMul(HReal(v[k]), Prob(e.theta, e.beta, e.X[i], k))])
                      means == TLCEval([i \in 1..n |-> mean(i)])
                      p(i) == Prob(e.theta, e.beta, e.X[i], Rank(e.y, e.y[i]))
                      crit == e.crit
                  IN If(HLe(HDot(g, HSolve(Minus(H), g)), HMul(e.acc, HReal(m))), "maximum")
                     \cup If(Near(e.dev, HMul("-2", ll)) /\ Near(e.dev0, HMul("-2", NullLogLik(e.y))), "deviance")
                     \cup If(\A r \in 1..m : HAllClose(Apply(Minus(H), Column(e.cov, r)), [q \in 1..m |-> IF q = r THEN "1" ELSE "0"], "1e-6", "0"), "covariance")
                     \cup If(NearAll(e.std, [q \in 1..m |-> HSqrt(e.cov[q][q])]) /\ NearAll(e.t, [q \in 1..m |-> HDiv(par[q], e.std[q])])
                             /\ NearAll(e.p, [q \in 1..m |-> HMul("2", HPhi(HNeg(HAbs(e.t[q]))))]), "tests")
                     \cup If(HClose(HPhi(HNeg(crit)), HDiv(e.alpha, "2"), "1e-10", "0") /\ NearAll(e.lo, [q \in 1..m |-> HSub(par[q], HMul(crit, e.std[q]))])
                             /\ NearAll(e.hi, [q \in 1..m |-> HAdd(par[q], HMul(crit, e.std[q]))]), "interval")
                     \cup If(\A i \in 1..n : NearAll(e.mu[i], [k \in 1..(nz + 1) |-> Prob(e.theta, e.beta, e.X[i], k)]), "fitted")
                     \cup If(NearAll(e.res, [i \in 1..n |-> HSub(HReal(e.y[i]), means[i])]), "residual")
                     \cup If(Len(e.resD) = n /\ (\A i \in 1..n : HLt(HAbs(e.res[i]), "1e-6") \/ Near(HAbs(e.resD[i]), HSqrt(HMul("-2", HLog(p(i)))))) /\ (\A i \in 1..n : HLe("0", HMul(e.res[i], e.resD[i]))), "deviance-residual")
                     \cup If(e.counts = <<m, n, nz + 1, IF n > m THEN n - m ELSE 0, n - nz>>, "counts")
                     \cup If(e.family = IF nz = 1 THEN "binomial" ELSE "multinomial", "family")
                     \cup If(e.converged, "converged")
VPredict(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET nz == Len(e.theta)
             half(i, k) == HMul(e.crit, HSqrt(PredVar(e.cov, nz, e.X[i], k)))
             eta(i, k) == HAdd(e.theta[k], Inner(e.beta, e.X[i]))
         IN  If(Len(e.got) = Len(e.X) /\ (\A i \in 1..Len(e.X) : NearAll(e.got[i], [k \in 1..(nz + 1) |-> Prob(e.theta, e.beta, e.X[i], k)])), "probabilities")
             \cup If(e.full => /\ HClose(HPhi(HNeg(e.crit)), HDiv(e.alpha, "2"), "1e-10", "0")
                               /\ \A i \in 1..Len(e.X) :
                                     \* the first category follows the first predictor, the last one the last
                                     /\ HClose(e.lo[i][1], Sig(HSub(eta(i, 1), half(i, 1))), "1e-7", "1e-6") /\ HClose(e.up[i][1], Sig(HAdd(eta(i, 1), half(i, 1))), "1e-7", "1e-6")
                                     /\ HClose(e.lo[i][nz + 1], HSub("1", Sig(HAdd(eta(i, nz), half(i, nz)))), "1e-7", "1e-6")
                                     /\ HClose(e.up[i][nz + 1], HSub("1", Sig(HSub(eta(i, nz), half(i, nz)))), "1e-7", "1e-6"), "bounds")
VCompare(e) == IF e.kind # "ok" THEN {"evaluates"} ELSE If(HClose(e.got, ChiTail(HAbs(HSub(e.dev1, e.dev2)), e.df), "1e-9", "1e-6"), "p-value")
Verdict(s, e) ==
    CASE e.op = "fit" -> VFit(e) [] e.op = "predict" -> VPredict(e) [] e.op = "compare" -> VCompare(e) [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
