---------------------------- MODULE ExtremesTrace ---------------------------
EXTENDS Extremes
If(b, name) == IF b THEN {} ELSE {name}
Near(a, b) == HClose(a, b, "1e-12", "1e-10")
AllNear(s, w) == Len(s) = Len(w) /\ \A i \in 1..Len(w) : Near(s[i], w[i])
SortH(s) == SortSeq(s, LAMBDA a, b : HLt(a, b))
VPot(e) ==
    IF e.r.kind # "ints" THEN {"returns-indices"}
    ELSE LET K == {e.r.v[i] + 1 : i \in 1..Len(e.r.v)}
         IN  IF ~(K \subseteq 1..Len(e.d)) \/ Cardinality(K) # Len(e.r.v) THEN {"valid-indices"}
             ELSE If(K \subseteq Exceed(e.d, e.u), "above-threshold")
                  \cup If(Apart(e.t, K, e.tmin), "peaks-too-close")
                  \cup If(Explained(e.d, e.t, e.u, e.tmin, K), "peak-lost")
                  \cup If(\A i \in 1..(Len(e.r.v) - 1) : e.t[e.r.v[i] + 1] < e.t[e.r.v[i + 1] + 1], "time-order")
                  \cup If(e.ties \/ [i \in 1..Len(e.r.v) |-> e.r.v[i] + 1] = Pot(e.d, e.t, e.u, e.tmin), "largest-first")
VEdf(e) ==
    LET z == SortH(SelectSeq(e.x, LAMBDA v : ~e.cond \/ HLe(e.c, v)))
        n == Len(z)
        F(k) == CASE e.method = 1 -> HDiv(HSub(HReal(k), "0.5"), HReal(n))
                  [] e.method = 2 -> HFrac(k, n + 1)
                  [] e.method = 3 -> HFrac(k, n)
    IN  IF e.r.kind # "pair" THEN {"returns-edf"}
        ELSE If(HAllClose(e.r.x, z, "0", "0"), "sorted-data")
             \cup If(AllNear(e.r.f, [k \in 1..n |-> F(k)]), "plotting-positions")
VSf(e) ==     \* return period -> probability of exceedance
    LET v == HMul(e.t, e.n)
        bad == HLe(e.n, "0") \/ HLt(v, "1")
    IN  If(e.r.kind = "reals" /\ HClose(e.r.v, IF bad THEN "nan" ELSE HDiv("1", v), "0", "1e-12"), "probability")
VPeriod(e) == \* probability -> return period
    LET bad == HLt(e.n, "0") \/ HLt(e.q, "0") \/ HLe("1", e.q)
        v == HMul(e.q, e.n)
    IN  If(e.r.kind = "reals" /\ HClose(e.r.v, IF bad THEN "nan" ELSE IF HEq(v, "0") THEN "inf" ELSE HDiv("1", v), "0", "1e-12"),
           "return-period")
Diffs(t) == LET z == SortSeq(t, LAMBDA a, b : a < b) IN [i \in 1..(Len(t) - 1) |-> z[i + 1] - z[i]]
MeanI(s, f(_)) == HDiv(HSum([i \in 1..Len(s) |-> HReal(f(s[i]))]), HReal(Len(s)))
SetMaxI(s) == CHOOSE a \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= a
SetMinI(s) == CHOOSE a \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] >= a
Ei(ti) ==
    LET mx == SetMaxI(ti)
        sq(a) == HMul(a, a)
    IN  IF mx <= 1 THEN "0"
        ELSE IF mx <= 2 THEN HMin("1", HDiv(HMul("2", sq(MeanI(ti, LAMBDA v : v))), MeanI(ti, LAMBDA v : v * v)))
        ELSE HMin("1", HDiv(HMul("2", sq(MeanI(ti, LAMBDA v : v - 1))), MeanI(ti, LAMBDA v : (v - 1) * (v - 2))))
VEi(e) == If(e.r.kind = "reals" /\ Near(e.r.v, Ei(e.ti)), "extremal-index")
VTimes(e) == If(e.r.kind = "ints" /\ e.r.v = Diffs(e.t), "interexceedance-times")
VTc(e) ==
    LET ti == Diffs(e.t)
        ei == Ei(ti)
        n == Len(e.t)
        desc == SortSeq(ti, LAMBDA a, b : a > b)
        k == HFloor(HMul(HReal(n), ei))
        \* when n*ei is (nearly) an integer, rounding may go either way
        ks == {k, HFloor(HMul(HReal(n), HMul(ei, "1.000000000001"))), HFloor(HMul(HReal(n), HMul(ei, "0.999999999999")))}
        M(a, b) == IF a < b THEN a ELSE b
    IN  If(e.r.kind = "reals" /\ (IF HClose(ei, "1", "1e-9", "0")
              THEN \E v \in {SetMinI(ti)} \cup {desc[M(j, n - 2) + 1] : j \in ks} : Near(e.r.v, HReal(v))
              ELSE \E j \in ks : Near(e.r.v, HReal(desc[M(j, n - 2) + 1]))), "declustering-time")
\* mean residual life: mean excess, number of exceedances and confidence interval
VReslife(e) ==
    IF e.r.kind # "reslife" THEN {"returns-mean-residual-life"}
    ELSE UNION {LET ex == SelectSeq(e.x, LAMBDA v : HLt(e.u[k], v))
                    y == [i \in 1..Len(ex) |-> HSub(ex[i], e.u[k])]
                    n == Len(y)
                    m == HMean(y)
                    sd == HSqrt(HMean([i \in 1..n |-> HPow(HSub(y[i], m), 2)]))
                    half == HSub(e.r.hi[k], e.r.mrl[k])
                    z == HDiv(HMul(half, HSqrt(HReal(n))), sd)
                    nu == HReal(n - 1)
                    tail == HMul("0.5", HBetaI(HDiv(nu, "2"), "0.5", HDiv(nu, HAdd(nu, HMul(z, z)))))
                IN  If(Near(e.r.mrl[k], m), "mean-excess")
                    \cup If(Near(e.r.num[k], HReal(n)), "number-of-exceedances")
                    \cup (IF n < 2 \/ HLe(sd, "1e-9") THEN {}
                          ELSE If(HClose(HSub(e.r.mrl[k], e.r.lo[k]), half, "1e-9", "1e-7"), "symmetric-interval")
                               \cup If(HClose(tail, HDiv(e.alpha, "2"), "0", "1e-6"), "interval-level"))
               : k \in 1..Len(e.u)}
\* dispersion index: variance over mean of the number of exceedances per block
VDisp(e) ==
    LET n == Len(e.d)
        t0 == SetMinI(e.t)
        blk == [i \in 1..n |-> (e.t[i] - t0) \div e.tb]
        M == SetMaxI(blk) + 1
        Occ(u) == [b \in 1..M |-> HReal(Cardinality({i \in 1..n : blk[i] = b - 1 /\ e.d[i] > u}))]
        Di(u) == LET o == Occ(u)  m == HMean(o)
                 IN HDiv(HMean([b \in 1..M |-> HPow(HSub(o[b], m), 2)]), m)
        df == HReal(M - 1)
        P(x) == HGammaP(HDiv(df, "2"), HDiv(HMul(x, df), "2"))
        a2 == HDiv(e.alpha, "2")
    IN  IF e.r.kind # "disp" THEN {"returns-dispersion-index"}
        ELSE If(AllNear(e.r.di, [k \in 1..Len(e.u) |-> Di(e.u[k])]), "dispersion-index")
             \cup If(HClose(P(e.r.lo), a2, "0", "1e-6") /\ HClose(HSub("1", P(e.r.hi)), a2, "0", "1e-6"), "chi2-bounds")
             \cup LET ok == SelectSeq([k \in 1..Len(e.u) |-> k], LAMBDA k : HLt(e.r.lo, e.r.di[k]) /\ HLt(e.r.di[k], e.r.hi))
                  IN  If(e.r.ok = [i \in 1..Len(ok) |-> e.u[ok[i]]], "acceptable-thresholds")
Verdict(st, e) ==
    CASE e.op = "findpot" -> VPot(e)
      [] e.op = "edf" -> VEdf(e)
      [] e.op = "returnperiod2sf" -> VSf(e)
      [] e.op = "sf2returnperiod" -> VPeriod(e)
      [] e.op = "extremal_idx" -> VEi(e)
      [] e.op = "interexceedance_times" -> VTimes(e)
      [] e.op = "declustering_time" -> VTc(e)
      [] e.op = "reslife" -> VReslife(e)
      [] e.op = "dispersion_idx" -> VDisp(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
      [] OTHER -> {"unknown-operation"}
After(st, e) == st
VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
