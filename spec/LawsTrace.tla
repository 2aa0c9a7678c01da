------------------------------ MODULE LawsTrace -----------------------------
EXTENDS Laws
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
C(a, b) == HClose(a, b, "1e-10", "1e-9")
VLaw(e) ==
    LET n == Len(e.x)
        In(k) == Inside(e.name, e.th, e.x[k])
        own == e.name = "truncrayleigh"
        Tl(a, b) == IF own THEN HClose(a, b, "1e-300", "1e-9") ELSE C(a, b)
        Cd(k) == Cdf(e.name, e.th, e.x[k])  S(k) == Sf(e.name, e.th, e.x[k])
    IN  IF e.kind # "ok" THEN {"evaluates"}
        ELSE If(\A k \in 1..n : C(e.cdf[k], Cd(k)), "distribution")
             \cup If(\A k \in 1..n : Tl(e.sf[k], S(k)), "survival")
             \cup If(\A k \in 1..n : IF In(k) THEN LET v == LogPdf(e.name, e.th, e.x[k]) IN HClose(e.pdf[k], HExp(v), "1e-10", "1e-8") /\ HClose(e.logpdf[k], v, "1e-8", "1e-8") ELSE HEq(e.pdf[k], "0") /\ ~HIsFinite(e.logpdf[k]), "density")
             \cup If(\A k \in 1..n : In(k) /\ HLt("1e-4", Cd(k)) => HClose(e.logcdf[k], HLog(Cd(k)), "1e-7", "1e-7"), "log-distribution")
             \cup If(\A k \in 1..n : In(k) /\ (own \/ HLt("1e-4", S(k))) => HClose(e.logsf[k], HLog(S(k)), "1e-7", "1e-7"), "log-survival")
VQuantile(e) ==
    LET n == Len(e.q) IN
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE If(\A k \in 1..n : Inside(e.name, e.th, e.ppf[k]) /\ HClose(Cdf(e.name, e.th, e.ppf[k]), e.q[k], "1e-9", "1e-8"), "quantile")
         \cup If(\A k \in 1..n : Inside(e.name, e.th, e.isf[k]) /\ HClose(Sf(e.name, e.th, e.isf[k]), e.q[k], "1e-9", "1e-8"), "upper-quantile")
VMoments(e) ==
    LET m == TLCEval(TRRaw(e.c))  v == TLCEval(Central(m))
    IN  IF e.kind # "ok" THEN {"evaluates"}
        ELSE If(C(e.mean, HAdd(e.loc, HMul(e.scale, m[1]))), "mean") \cup If(C(e.vr, HMul(HPow(e.scale, 2), v[1])), "variance")
             \cup If(HClose(e.skew, v[2], "1e-6", "1e-6"), "skewness") \cup If(HClose(e.kurt, v[3], "1e-5", "1e-5"), "kurtosis")
             \cup If(HClose(e.entropy, HAdd(TREntropy(e.c), HLog(e.scale)), "1e-9", "1e-9"), "entropy")
             \cup If(\A k \in 1..Len(e.raw) : HClose(e.raw[k], m[k], "1e-9", "1e-7"), "raw-moments")
\* x in halves
VTrials(e) ==
    LET w == TLCEval(Trials(e.p))  n == Len(e.p)
        F(k) == HSum([j \in 1..n + 1 |-> IF j - 1 <= k THEN w[j] ELSE "0"])
        U(k) == HSum([j \in 1..n + 1 |-> IF j - 1 > k THEN w[j] ELSE "0"])
        fl(k) == e.x2[k] \div 2
        raw == [q \in 1..4 |-> HSum([j \in 1..n + 1 |-> HMul(w[j], HReal(IF q = 1 THEN j - 1 ELSE IF q = 2 THEN (j - 1) * (j - 1) ELSE IF q = 3 THEN (j - 1) * (j - 1) * (j - 1) ELSE (j - 1) * (j - 1) * (j - 1) * (j - 1)))])]
        v == TLCEval(Central(raw))
    IN  IF e.kind # "ok" THEN {"evaluates"}
        ELSE If(\A k \in 1..Len(e.x2) : C(e.pmf[k], IF e.x2[k] % 2 = 0 /\ fl(k) >= 0 /\ fl(k) <= n THEN w[fl(k) + 1] ELSE "0"), "mass")
             \cup If(\A k \in 1..Len(e.x2) : C(e.cdf[k], F(fl(k))) /\ C(e.sf[k], U(fl(k))), "distribution")
             \cup If(C(e.mean, raw[1]) /\ C(e.vr, v[1]) /\ (HLt("1e-3", v[1]) => HClose(e.skew, v[2], "1e-7", "1e-7") /\ HClose(e.kurt, v[3], "1e-7", "1e-7")), "moments")
             \cup If(\A k \in 1..Len(e.q) : LET i == e.ppf[k] IN i >= 0 /\ i <= n /\ HLe(HSub(e.q[k], "1e-12"), F(i)) /\ (i > 0 => HLt(F(i - 1), HAdd(e.q[k], "1e-12"))), "quantile")
             \cup If(\A k \in 1..Len(e.rvs) : e.rvs[k] >= 0 /\ e.rvs[k] <= n /\ HLt("0", w[e.rvs[k] + 1]), "samples")
Verdict(s, e) == CASE e.op = "law" -> VLaw(e) [] e.op = "quantile" -> VQuantile(e) [] e.op = "moments" -> VMoments(e) [] e.op = "trials" -> VTrials(e)
      [] e.op = "refuse" -> If(e.kind = "ValueError", "refused")
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
