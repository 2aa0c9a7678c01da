------------------------------ MODULE KdeTrace ------------------------------
(* An event carries the history of the object: how it was made and which     *)
(* attributes were assigned (or queries made) before the value was read.     *)
EXTENDS Kde
VARIABLES l, st, bad
If(b, name) == IF b THEN {} ELSE {name}
MaxAbs(s) == LET z == Order([i \in 1..Len(s) |-> HAbs(s[i])]) IN z[Len(z)]
CloseTo(v, w, rt) == Len(v) = Len(w) /\ HAllClose(v, w, HMul(rt, HAdd(MaxAbs(w), "1e-280")), "0")
\* power transformation of the coordinates
TP(v, x) == IF v = "none" \/ HEq(v, "1") THEN x ELSE IF HEq(v, "0") THEN HLog(x) ELSE IF HLt(v, "0") THEN HNeg(HRPow(x, v)) ELSE HRPow(x, v)
TInv(v, x) == IF v = "none" \/ HEq(v, "1") THEN x ELSE IF HEq(v, "0") THEN HExp(x) ELSE HRPow(HAbs(x), HDiv("1", v))
TJac(v, x) == IF v = "none" \/ HEq(v, "1") THEN "1" ELSE IF HEq(v, "0") THEN HDiv("1", x)
              ELSE HMul(HAbs(v), HRPow(x, HSub(v, "1")))
TData(L, data) == TLCEval([k \in 1..Len(data) |-> [i \in 1..Len(data[k]) |-> TP(L[k], data[k][i])]])
RECURSIVE Run(_, _, _)
Run(o, hist, i) ==
    IF i > Len(hist) THEN o
    ELSE LET h == hist[i]
             o2 == CASE h.what = "new" -> Object(h.data, h.H, h.k, h.alpha)
                     [] h.what = "hs" -> Object(o.data, h.H, o.k, "0")
                     [] h.what = "alpha" -> Object(o.data, o.H, o.k, h.alpha)
                     [] h.what = "query" -> o
         IN  Run(o2, hist, i + 1)
VKde(e) ==
    LET hist == [e.hist EXCEPT ![1].data = TData(e.L, e.hist[1].data)]
        o == TLCEval(Run([k |-> "none"], hist, 1))
        want == [j \in 1..Len(e.x) |->
                  LET x == e.x[j]
                      t == TLCEval([k \in 1..Len(x) |-> TP(e.L[k], x[k])])
                  IN  HMul(Est(o, t, e.y, e.m), HProd([k \in 1..Len(x) |-> TJac(e.L[k], x[k])]))]
    IN  IF e.r.kind # "reals" THEN {"returns-density"}
        ELSE If(CloseTo(e.r.v, TLCEval(want), "1e-9"), "kernel-sum")
             \cup If(e.m # 0 \/ e.neg \/ \A j \in 1..Len(e.r.v) : HLe("0", e.r.v[j]), "non-negative")
Uniform(g) == LET n == Len(g) IN \A j \in 1..n : HClose(HSub(g[j], g[1]), HMul(HSub(g[n], g[1]), HFrac(j - 1, n - 1)),
                                              HMul("1e-9", HSub(g[n], g[1])), "0")
VFast(e) ==
    LET o == Run([k |-> "none"], [e.hist EXCEPT ![1].data = TData(e.L, e.hist[1].data)], 1)
        d == Len(e.X)
        f == TLCEval(IF d = 1 THEN Fast1(o, e.X, e.y, e.m) ELSE Fast2(o, e.X))
        inc == Len(e.X[1])
        jac == TLCEval([p \in 1..Len(f.z) |-> HProd([k \in 1..d |->
                LET q == Decode(p, d, inc) IN TJac(e.L[k], TInv(e.L[k], e.X[k][q[k]]))])])
        w == TLCEval([p \in 1..Len(f.z) |-> HMul(HDiv(f.z[p], f.n), jac[p])])
        tol == HMul("1e-10", HDiv(MaxAbs(f.z), HAbs(f.n)))   \* accuracy of the discrete Fourier transform
    IN  IF e.r.kind # "reals" THEN {"returns-density"}
        ELSE If(\A k \in 1..d : Uniform(e.X[k]) /\ Len(e.X[k]) = e.inc /\ HLe(e.X[k][1], Order(o.data[k])[1])
                     /\ HLe(Order(o.data[k])[Len(o.data[k])], e.X[k][inc]), "grid-covers-data")
             \cup If(~f.sharp \/ (Len(e.r.v) = Len(w) /\ \A p \in 1..Len(w) : HClose(e.r.v[p], w[p], HMul(tol, jac[p]), "1e-9")), "binned-convolution")
             \cup If(e.m # 0 \/ e.neg \/ \A p \in 1..Len(e.r.v) : HLe("0", e.r.v[p]), "non-negative")
\* fast evaluation of a transformed estimate in given points: linear interpolation between the grid points
Interp(xs, fs, x) ==
    LET n == Len(xs)  ks == {k \in 1..(n - 1) : HLe(xs[k], x) /\ HLe(x, xs[k + 1])}
    IN  IF ks = {} THEN "0"
        ELSE LET k == CHOOSE k \in ks : TRUE
             IN  HAdd(fs[k], HMul(HSub(fs[k + 1], fs[k]), HDiv(HSub(x, xs[k]), HSub(xs[k + 1], xs[k]))))
VFastT(e) ==
    LET o == Run([k |-> "none"], [e.hist EXCEPT ![1].data = TData(e.L, e.hist[1].data)], 1)
        f == TLCEval(Fast1(o, e.X, e.y, 0))
        v == e.L[1]
        x0 == TLCEval([p \in 1..Len(f.z) |-> TInv(v, e.X[1][p])])
        w0 == TLCEval([p \in 1..Len(f.z) |-> HMul(HDiv(f.z[p], f.n), TJac(v, x0[p]))])
        n == Len(x0)
        up == HLt(x0[1], x0[n])
        xs == IF up THEN x0 ELSE TLCEval([p \in 1..n |-> x0[n + 1 - p]])
        fs == IF up THEN w0 ELSE TLCEval([p \in 1..n |-> w0[n + 1 - p]])
        ends == {i \in 1..Len(e.x) : HLt(HAdd(xs[1], HMul("1e-9", HAbs(xs[1]))), e.x[i]) /\ HLt(e.x[i], HSub(xs[n], HMul("1e-9", HAbs(xs[n]))))}
        w == TLCEval([i \in 1..Len(e.x) |-> Interp(xs, fs, e.x[i])])
        tol == HMul("1e-8", HAdd(MaxAbs(fs), "1e-280"))
    IN  IF e.r.kind # "reals" THEN {"returns-density"}
        ELSE If(Len(e.r.v) = Len(e.x) /\ (~f.sharp \/ \A i \in ends : HClose(e.r.v[i], w[i], tol, "0")), "interpolated-density")
             \cup If(\A i \in 1..Len(e.x) : HLe(HMin(TP(v, e.x[i]), e.X[1][1]), HAdd(e.X[1][1], HMul("1e-9", HAbs(e.X[1][1])))) , "grid-covers-points")
\* ---- regression ------------------------------------------------------------
Reg(s0, s1, s2, t0, t1, p) == IF p = 0 THEN HDiv(t0, s0)
                              ELSE HDiv(HSub(HMul(s2, t0), HMul(s1, t1)), HSub(HMul(s2, s0), HMul(s1, s1)))
VReg(e) ==
    LET o == Run([k |-> "none"], [e.hist EXCEPT ![1].data = TData(e.L, e.hist[1].data)], 1)
        n == Len(e.y)  one == Ones(n)  v == e.L[1]
        S(r, y) == IF e.fast THEN TLCEval(Fast1(o, <<e.x>>, y, r)).z
                   ELSE TLCEval([j \in 1..Len(e.x) |-> Est(o, <<TP(v, e.x[j])>>, y, r)])
        s0 == S(0, one)  t0 == S(0, e.y)
        s1 == IF e.p = 1 THEN S(1, one) ELSE s0
        s2 == IF e.p = 1 THEN S(2, one) ELSE s0
        t1 == IF e.p = 1 THEN S(1, e.y) ELSE s0
        ok(j) == /\ HLt(HMul("1e-3", MaxAbs(s0)), s0[j])
                 /\ (e.p = 1 => HLt(HMul("1e-4", HMul(s2[j], s0[j])), HSub(HMul(s2[j], s0[j]), HMul(s1[j], s1[j]))))
    IN  IF e.r.kind # "reals" \/ Len(e.r.v) # Len(e.x) THEN {"returns-regression"}
        ELSE If(\A j \in 1..Len(e.x) : ok(j) =>
                 HClose(e.r.v[j], Reg(s0[j], s1[j], s2[j], t0[j], t1[j], e.p), HMul("1e-7", HAdd(MaxAbs(e.y), "1e-280")), "0"),
                "local-polynomial-regression")
\* ---- binomial intervals ------------------------------------------------------
\* x is the q-quantile of the beta distribution, up to the spacing of doubles
Brackets(a, b, x, q) ==
    LET lo == HMax("0", HMul(x, HSub("1", "1e-10")))  hi == HMin("1", HMul(x, HAdd("1", "1e-10")))
        B(t) == IF HLe(t, "0") THEN "0" ELSE IF HLe("1", t) THEN "1" ELSE HBetaI(a, b, t)
    IN  HLe(B(lo), HAdd(q, "1e-8")) /\ HLe(HSub(q, "1e-8"), B(hi)) /\ HLe("0", x) /\ HLe(x, "1")
VCi(e) ==
    IF e.r.kind # "ci" THEN {"returns-interval"}
    ELSE UNION {LET n == e.n[i]  p == e.p[i]  lo == e.r.lo[i]  hi == e.r.hi[i]
                    q == HDiv(e.alpha, "2")
                    z == e.z
                    score(c) == HClose(HMul(n, HPow(HSub(p, c), 2)), HMul(HMul(z, z), HMul(c, HSub("1", c))), "1e-9", "1e-7")
                    a == HAdd(HMul(n, p), e.a)  b == HAdd(HMul(n, HSub("1", p)), e.b)
                IN  IF e.wilson
                    THEN If(HClose(HPhi(HNeg(z)), q, "1e-12", "1e-9") /\ score(lo) /\ score(hi), "score-equation")
                         \cup If(HLe(lo, HAdd(p, "1e-9")) /\ HLe(HSub(p, "1e-9"), hi) /\ HLe(lo, hi), "contains-estimate")
                    ELSE If(IF HEq(p, "1") THEN HEq(hi, "1") ELSE Brackets(a, b, hi, HSub("1", q)), "upper-quantile")
                         \cup If(IF HEq(p, "0") THEN HEq(lo, "0") ELSE Brackets(a, b, lo, q), "lower-quantile")
                : i \in 1..Len(e.n)}
VEmp(e) ==
    LET one == Ones(Len(e.x))
        c == Counts(<<e.x>>, <<e.X>>, one)
        c1 == Counts(<<e.x>>, <<e.X>>, e.y)
    IN  IF e.r.kind # "emp" THEN {"returns-probability"}
        ELSE If(HAllClose(e.r.count, c, "1e-9", "0"), "counts")
             \cup If(\A j \in 1..Len(c) : HLt("1e-6", c[j]) => HClose(e.r.p[j], HDiv(c1[j], c[j]), "1e-7", "0"), "relative-frequency")
VBest(e) == IF e.r.kind # "best" THEN {"returns-best"}
            ELSE LET m == {i \in 1..Len(e.r.score) : \A j \in 1..Len(e.r.score) : HLe(e.r.score[i], e.r.score[j])}
                 IN  If((\E i \in m : HEq(e.r.hs, e.hs[i]) /\ HEq(e.r.aicc, e.r.score[i])) \/
                        (\A i \in m : HLt(e.r.aicc, e.r.score[i])), "smallest-score")
                     \cup If(HEq(e.r.after, e.r.hs), "smoothing-set")
                     \cup If(\A i \in 1..Len(e.r.p) : HLe("0", e.r.p[i]) /\ HLe(e.r.p[i], "1"), "probability-range")
\* ---- kernels and bandwidths ---------------------------------------------------
VKernel(e) ==
    IF e.r.kind # "reals" THEN {"returns-value"}
    ELSE If(CloseTo(e.r.v, TLCEval([i \in 1..Len(e.u) |-> KVal(e.k, e.u[i])]), "1e-12"), "kernel-value")
         \cup If(HClose(e.norm, KNorm(e.k, Len(e.u[1])), "0", "1e-12"), "kernel-integral")
         \cup If(HClose(e.mu2, Mu2(e.k), "0", "1e-12") /\ HClose(e.rough, Rough(e.k), "0", "1e-12"), "kernel-moments")
VH(e) ==
    IF e.r.kind # "reals" \/ Len(e.r.v) # Len(e.data) THEN {"returns-bandwidth"}
    ELSE LET w(s) == CASE e.f = "hns" -> Hns(e.k, s) [] e.f = "hos" -> HDiv(Hns(e.k, s), "0.93")
                       [] e.f = "hldpi" -> Hldpi(e.k, s, e.stages, e.inc) [] e.f = "hste" -> Hste(e.k, s, e.inc)
         IN  If(\A i \in 1..Len(e.data) : HClose(e.r.v[i], w(e.data[i]), HMul("1e-15", MaxAbs(e.data[i])), IF e.f \in {"hns", "hos"} THEN "1e-10" ELSE "1e-6"), "bandwidth-rule")
\* h(a x + b) = |a| h(x), order of the data immaterial, coordinates independent
VEq(e) == If(e.r.kind = "reals" /\ Len(e.r.v) = Len(e.base) /\
             \A i \in 1..Len(e.base) : HClose(e.r.v[i], HMul(HAbs(e.a[i]), e.base[i]), "0", "1e-5") /\ HLt("0", e.r.v[i]), "scales-with-data")
VHmns(e) ==
    IF e.r.kind # "reals" THEN {"returns-bandwidth"}
    ELSE LET d == Len(e.data)  n == Len(e.data[1])
             m == [i \in 1..d |-> HMean(e.data[i])]
             C == TLCEval([i \in 1..d |-> [j \in 1..d |-> HDiv(HSum([t \in 1..n |-> HMul(HSub(e.data[i][t], m[i]), HSub(e.data[j][t], m[j]))]), HReal(n - 1))]])
             c0 == CASE e.k = "epan" -> HRPow(HDiv(HMul(HReal(8 * (d + 4)), HPow(HMul("2", HSqrt(HPi)), d)), Ball(d)), HFrac(1, d + 4))
                     [] e.k = "biwe" -> "2.7779" [] e.k = "triw" -> "3.12"
                     [] e.k = "gaus" -> HRPow(HFrac(4, d + 2), HFrac(1, d + 4))
             s2 == HPow(HMul(c0, HRPow(HReal(n), HFrac(-1, d + 4))), 2)
             P == MatMul(e.r.v, e.r.v)
             tr == HSum([i \in 1..d |-> C[i][i]])
         IN  If(\A i, j \in 1..d : HClose(P[i][j], HMul(s2, C[i][j]), HMul("1e-8", HMul(s2, tr)), "0")
                    /\ HClose(e.r.v[i][j], e.r.v[j][i], HMul("1e-8", HSqrt(HMul(s2, tr))), "0"), "square-root-of-covariance")
             \cup If(HLt("0", Det(e.r.v)), "positive-definite")
Verdict(s, e) ==
    CASE e.op = "kde" -> VKde(e)
      [] e.op = "fast" -> VFast(e)
      [] e.op = "fast-interpolated" -> VFastT(e)
      [] e.op = "regression" -> VReg(e)
      [] e.op = "ci" -> VCi(e)
      [] e.op = "empirical" -> VEmp(e)
      [] e.op = "best" -> VBest(e)
      [] e.op = "kernel" -> VKernel(e)
      [] e.op = "bandwidth" -> VH(e)
      [] e.op = "equivariant" -> VEq(e)
      [] e.op = "hmns" -> VHmns(e)
      [] e.op = "sphere" -> If(e.r.kind = "reals" /\ HClose(e.r.v, HMul(Ball(e.d), HPow(e.rad, e.d)), "0", "1e-12"), "volume")
      [] e.op = "iqr" -> If(e.r.kind = "reals" /\ CloseTo(e.r.v, [i \in 1..Len(e.data) |-> Iqr(e.data[i])], "1e-12"), "quartiles")
      [] e.op = "range" -> If(e.r.kind = "reals" /\ CloseTo(e.r.v, LET q == e.x  sg == HMin(HSqrt(Var(q)), HDiv(Iqr(q), "1.34"))  z == Order(q)
                                    IN <<HSub(z[1], HMul("2", sg)), HAdd(z[Len(z)], HMul("2", sg))>>, "1e-10"), "default-range")
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
