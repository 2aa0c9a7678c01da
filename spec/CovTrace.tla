----------------------------- MODULE CovTrace -------------------------------
EXTENDS Cov, Stineman
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
Tol(b, e) == HMul(e, HAdd(b, "1e-300"))
\* covariance from spectrum
VToCov(e) ==
    LET n == Len(e.x)  rate == IF e.rate > 16 THEN 16 ELSE Pow2Ceil(e.rate, 1)
        nt == IF e.nt = -1 \/ e.nt > rate * (n - 1) THEN rate * (n - 1) ELSE e.nt
        dt == HDiv(HPi, HMul(AngFreq(e.x, e.ft)[n], HReal(rate)))
        exact == Pow2Ceil(n - 1, 1) = n - 1
    IN  IF e.bad THEN If(e.r.kind = "error" /\ e.r.value, "refused")
        ELSE IF e.r.kind # "cov" THEN {"returns-covariance"}
        ELSE If(Len(e.r.t) = nt + 1 /\ \A i \in 1..(e.nr + 1) : Len(e.r.d[i]) = nt + 1 /\ Len(e.r.d) = e.nr + 1, "length")
             \cup If(nt = 0 \/ (LET s == e.r.t[2] IN HLe(s, HMul(dt, "1.0000001")) /\ (exact => HClose(s, dt, "0", "1e-9"))
                     /\ \A i \in 1..Len(e.r.t) : HClose(e.r.t[i], HMul(s, HReal(i - 1)), HMul("1e-9", s), "0")), "lags")
             \cup If(e.r.lt = (IF e.ft = "k" THEN "x" ELSE "t"), "lag-type")
             \cup If(Len(e.r.d) # e.nr + 1 \/ \A k \in 0..e.nr : LET b == Tol(CovBound(e.x, e.s, e.ft, k), "1e-10") IN
                      \A i \in 1..Len(e.r.t) : HClose(e.r.d[k + 1][i], CovAt(e.x, e.s, e.ft, e.r.t[i], k), b, "0"), "covariance")
             \cup If(e.r.keep, "carries-transformation-depth-norm")
\* covariance matrix at lags k*dt; x2, s2: the density resampled to dt
VCovMat(e) ==
    LET n == Len(e.x)  nmax == e.rate * (n - 1)  nt == IF e.nt = -1 \/ e.nt > nmax THEN nmax ELSE e.nt
    IN  IF e.r.kind # "matrix" THEN {"returns-matrix"}
        ELSE If(e.r.n = nt + 1 /\ \A i \in 1..Len(e.rows) : Len(e.r.v[i]) = e.nr + 1, "shape")
             \cup If(e.r.n # nt + 1 \/ \A k \in 0..e.nr : LET b == Tol(CovBound(e.x2, e.s2, e.ft, k), "1e-9") IN
                     \A i \in 1..Len(e.rows) : HClose(e.r.v[i][k + 1], CovAt(e.x2, e.s2, e.ft, HMul(e.dt, HReal(e.rows[i])), k), b, "0"), "covariance-at-lag")
\* spectrum from covariance
VToSpec(e) ==
    LET n == Len(e.r)  dt == HDiv(e.t[n], HReal(n - 1))
        r1 == TLCEval([i \in 1..n |-> IF i = 1 THEN HAdd(e.r[1], e.nugget) ELSE e.r[i]])
        N == Len(e.o.x) - 1  wN == HDiv(HPi, dt)
        ws == TLCEval([j \in 1..(N + 1) |-> HDiv(HMul(wN, HReal(j - 1)), HReal(N))])
    IN  IF e.o.kind # "spec" THEN {"returns-spectrum"}
        ELSE If(e.o.ft = (IF e.lt = "x" THEN "k" ELSE "w"), "frequency-type")
             \cup If(HAllClose(e.o.x, ws, HMul("1e-10", wN), "0"), "frequencies")
             \cup If(e.o.keep, "carries-transformation-depth-norm")
             \cup (IF e.method = "fft" \/ e.rate = 1
                   THEN If(N >= e.rate * (n - 1) /\ (~e.fast => N = e.rate * (n - 1)), "fine-enough")
                        \cup If(DensOK(e.o.s, r1, dt, ws, e.trunc), "density")
                   ELSE LET M == Len(e.base.x)  yp == IF e.method = "stineman" THEN StSlopes(e.base.x, e.base.s) ELSE <<>>
                            Seg(t) == {i \in 1..(M - 1) : HLe(HSub(e.base.x[i], "1e-12"), t) /\ HLe(t, HAdd(e.base.x[i + 1], "1e-12"))}
                            Lin(i, t) == HAdd(e.base.s[i], HMul(HSub(t, e.base.x[i]), HDiv(HSub(e.base.s[i + 1], e.base.s[i]), HSub(e.base.x[i + 1], e.base.x[i]))))
                            mx == e.base.s[CHOOSE i \in 1..M : \A j \in 1..M : HLe(e.base.s[j], e.base.s[i])]
                        IN  If(N + 1 >= e.rate * (M - 1), "fine-enough")
                            \cup If(\A j \in 1..(N + 1) : \E i \in Seg(ws[j]) :
                                     HClose(e.o.s[j], HMax("0", IF e.method = "stineman" THEN StVal(e.base.x, e.base.s, yp, i, ws[j]) ELSE Lin(i, ws[j])), HMul("1e-9", mx), "0"), "interpolated"))
\* there and back again
VRound(e) == IF e.r.kind # "spec" THEN {"returns-spectrum"}
             ELSE LET w == AngFreq(e.x, e.ft)  s == IF e.ft = "f" THEN TLCEval([i \in 1..Len(e.s) |-> HDiv(e.s[i], TwoPi)]) ELSE e.s
                      mx == s[CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : HLe(s[j], s[i])]
                  IN  If(HAllClose(e.r.x, w, HMul("1e-10", w[Len(w)]), "0") /\ HAllClose(e.r.s, s, HMul("1e-10", mx), "0"), "round-trip")
\* estimate
Given(e) == IF e.tr THEN TLCEval([i \in 1..Len(e.x) |-> IF e.x[i] = "nan" THEN "nan" ELSE HAdd(HMul("2", e.x[i]), "1")]) ELSE e.x
Prep(e) == LET y == Centred(Given(e))
           IN  IF e.detrend = "first" THEN TLCEval([i \in 1..Len(y) |-> HSub(y[i], y[1])]) ELSE y
Est(e) == LET nc == Cardinality(Present(e.x))  y == Prep(e)
              r == SampleCov(y, nc, e.unb)
          IN  IF e.norm THEN TLCEval([k \in 1..Len(r) |-> HDiv(r[k], r[1])]) ELSE r
Windowed(r, lag, win) == TLCEval([k \in 1..(lag + 1) |-> IF k = lag + 1 THEN "0" ELSE HMul(r[k], win[k])])
VEst(e) ==
    LET nc == Cardinality(Present(e.x))  r == Est(e)  n == Len(e.x)
        full == TLCEval([k \in 1..n |-> IF e.unb /\ k > nc THEN "0" ELSE r[k]])
        l0 == IF e.lag # -1 THEN e.lag ELSE IF e.win = "parzen" THEN (4 * DefaultLag(full, nc)) \div 3 ELSE DefaultLag(full, nc)
        lag == IF l0 > n - 2 THEN n - 2 ELSE l0
    IN  IF e.o.kind # "cov" THEN {"returns-covariance"}
        ELSE IF Len(e.o.r) # lag + 1 THEN (IF e.lag = -1 /\ ~Clear(full, nc) THEN {} ELSE {"lag"})
        ELSE LET sym == Windowed(r, lag, e.wsym)  per == Windowed(r, lag, e.wper)  b == HMul("1e-10", HAbs(r[1]))
                 ok == HAllClose(e.o.r, sym, b, "0")
                 s == Sigma(IF ok THEN sym ELSE per, nc)
             IN  (IF ok THEN {} ELSE IF HAllClose(e.o.r, per, b, "0") THEN {"window-off-centre"} ELSE {"covariance-estimate"})
                 \cup If(\A k \in 1..(lag + 1) : HClose(e.o.t[k], HMul(e.dt, HReal(k - 1)), HMul("1e-9", e.dt), "0"), "lags")
                 \cup If(HAllClose(e.o.sig, s, HMul("1e-7", HAbs(r[1])), "1e-7"), "standard-deviation")
                 \cup If(e.o.norm = e.norm, "norm")
\* spectrum of a time series
Chi(n, v) == HGammaP(HDiv(HReal(n), "2"), HDiv(v, "2"))
VTsSpec(e) ==
    LET n == Len(e.x)  L == e.L  N == Len(e.o.x) - 1
        wN == HDiv(HPi, e.dt)
        ws == TLCEval([j \in 1..(N + 1) |-> HDiv(HMul(wN, HReal(j - 1)), HReal(N))])
        ang == AngFreq(e.o.x, e.ft)
        dens == IF e.ft = "f" THEN TLCEval([i \in 1..(N + 1) |-> HDiv(e.o.s[i], TwoPi)]) ELSE e.o.s
        y == Centred(Given(e))     \* a constant removed first makes no difference
        r == SampleCov(y, n, FALSE)
        Nug(v) == TLCEval([k \in 1..Len(v) |-> IF k = 1 THEN HAdd(v[1], "1e-12") ELSE v[k]])
        m == Len(e.wper)  hop == m - e.nover  segs == 1 + ((n - m) \div hop)
        wss == HSum([i \in 1..m |-> HMul(e.wper[i], e.wper[i])])
        mu == HMean([k \in 1..segs |-> HMean([i \in 1..m |-> y[((k - 1) * hop) + i]])])
        Seg(k) == TLCEval([i \in 1..m |-> HMul(e.wper[i], HSub(y[(k * hop) + i], mu))])
        zs == TLCEval([k \in 1..segs |-> Seg(k - 1)])
        Per(z, w) == HAdd(HPow(HSum([i \in 1..m |-> HMul(z[i], HCos(HMul(w, HMul(e.dt, HReal(i - 1)))))]), 2),
                          HPow(HSum([i \in 1..m |-> HMul(z[i], HSin(HMul(w, HMul(e.dt, HReal(i - 1)))))]), 2))
        Welch(j) == HMul(HDiv(HMul(e.dt, IF j \in {1, N + 1} THEN "1" ELSE "2"), HMul(wss, TwoPi)), HMean([k \in 1..segs |-> Per(zs[k], ws[j])]))
        K == IF e.ft = "f" THEN "1" ELSE TwoPi
        bw == CASE e.win \in {"parzen", "bartlett"} -> "1.33" [] e.win = "hann" -> "1" [] OTHER -> "nan"
        df == CASE e.win = "parzen" -> HFloor(HDiv(HMul("3.71", HReal(n)), HReal(L))) [] e.win = "bartlett" -> (3 * n) \div L [] e.win = "hann" -> HFloor(HDiv(HMul("2.67", HReal(n)), HReal(L))) [] OTHER -> -1
    IN  IF e.o.kind # "spec" THEN {"returns-spectrum"}
        ELSE If(HAllClose(ang, ws, HMul("1e-10", wN), "0"), "frequencies")
             \cup (IF e.method = "cov"
                   THEN IF DensOK(dens, Nug(Windowed(r, L, e.wsym)), e.dt, ws, "1e-5") THEN {}
                        ELSE IF DensOK(dens, Nug(Windowed(r, L, e.wperc)), e.dt, ws, "1e-5") THEN {"window-off-centre"} ELSE {"density-estimate"}
                   ELSE LET v == TLCEval([j \in 1..(N + 1) |-> Welch(j)])
                            mx == v[CHOOSE j \in 1..(N + 1) : \A i \in 1..(N + 1) : HLe(v[i], v[j])]
                        IN  If(HAllClose(dens, v, HMul("1e-9", mx), "0"), "averaged-periodogram"))
             \cup If(IF bw = "nan" THEN e.o.bw = "nan" ELSE HClose(e.o.bw, HDiv(HMul(bw, K), HMul(HReal(L), e.dt)), "0", "1e-9"), "bandwidth")
             \cup If(e.alpha = "none" \/ (IF df = -1 THEN e.o.ci = <<"nan", "nan">>
                      ELSE Len(e.o.ci) = 2 /\ \A i \in 1..2 : e.o.ci[i] # "nan" /\ HIsFinite(e.o.ci[i])
                           /\ \E q \in 1..2 : /\ HClose(Chi(df, HDiv(HReal(df), e.o.ci[q])), HDiv(e.alpha, "2"), "1e-8", "0")
                                              /\ HClose(Chi(df, HDiv(HReal(df), e.o.ci[3 - q])), HSub("1", HDiv(e.alpha, "2")), "1e-8", "0")), "confidence-interval")
             \cup If(e.o.L = L /\ e.o.ft = e.ft, "attributes")
Verdict(s, e) ==
    CASE e.op = "tocov" -> VToCov(e)
      [] e.op = "covmat" -> VCovMat(e)
      [] e.op = "tospec" -> VToSpec(e)
      [] e.op = "round" -> VRound(e)
      [] e.op = "est" -> VEst(e)
      [] e.op = "tsspec" -> VTsSpec(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
