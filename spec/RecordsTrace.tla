---------------------------- MODULE RecordsTrace ----------------------------
EXTENDS Records
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
Near(a, b) == HClose(a, b, "1e-10", "1e-9")
NearAll(a, b) == HAllClose(a, b, "1e-10", "1e-9")
SetOf(s) == {s[k] : k \in 1..Len(s)}
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Mean2(x, L, got) == IF NearAll(got, MovAvg(x, L)) THEN {} ELSE IF NearAll(got, Drifting(x, L)) THEN {"drifts"} ELSE {"window-mean"}
VAverage(e) == IF e.kind # "ok" THEN {"evaluates"} ELSE Mean2(e.x, e.L, e.got)
VDetrend(e) == IF e.kind # "ok" THEN {"evaluates"} ELSE IF Len(e.got) # Len(e.x) THEN {"window-mean"} ELSE Mean2(e.x, e.L, [k \in 1..Len(e.x) |-> HSub(e.x[k], e.got[k])])
VOutliers(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET z0 == [k \in 1..Len(e.x) |-> IF HIsFinite(e.x[k]) THEN e.x[k] ELSE "0"]
             d == IF e.d = "auto" THEN HMul("1.5", Spread(z0)) ELSE e.d
             dd == IF e.dd = "auto" THEN HMul("1.5", Spread(z0)) ELSE e.dd
         IN  If(SetOf(e.bad) = Spurious(e.x, e.z, d, dd) /\ Ascending(e.bad), "spurious")
             \cup If(Ascending(e.good) /\ SetOf(e.good) = (0..(Len(e.x) - 1)) \ SetOf(e.bad), "the-rest")
VFourier(e) == IF e.kind # "ok" THEN {"evaluates"}
               ELSE If(\A i \in 1..Len(e.a) : Near(e.a[i], Coefficient(e.x, e.t, e.period, i - 1, "cos", e.rule)) /\ Near(e.b[i], Coefficient(e.x, e.t, e.period, i - 1, "sin", e.rule)), "coefficients")
Value(M, p) == M[p[1]][p[2]]
VPeaks(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET C == Len(e.M[1])
             pos(k) == <<(k \div C) + 1, (k % C) + 1>>
             v(q) == Value(e.M, pos(e.got[q]))
             S == {pos(e.got[q]) : q \in 1..Len(e.got)}
             top == LET f == [k \in 1..Len(e.M) |-> Largest(e.M[k])] IN Largest(f)
             low == HMul(e.minp, top)
             need == {p \in MustPeak(e.M) : HLe(low, Value(e.M, p))}
         IN  If(S \subseteq MayPeak(e.M), "is-a-peak") \cup If(\A q \in 1..(Len(e.got) - 1) : HLt(v(q + 1), v(q)), "highest-first") \cup If(Len(e.got) <= e.n, "count")
             \cup If(e.minp # "0" => \A q \in 1..Len(e.got) : HLe(HSub(low, "1e-9"), v(q)), "least-height")
             \cup If(e.minh = "0" => \A p \in need : p \in S \/ (Len(e.got) = e.n /\ HLt(Value(e.M, p), v(Len(e.got)))), "all-peaks")
VLinear(e) == IF e.kind # "ok" THEN {"evaluates"}
              ELSE If(Len(e.x) = Points(e.c, e.a, e.b, e.n, e.tol), "resolution") \cup If(NearAll(e.x, Even(e.a, e.b, Len(e.x))), "even-grid")
                   \cup If(NearAll(e.y, [k \in 1..Len(e.x) |-> F(e.c, e.x[k])]), "values")
VAdaptive(e) == IF e.kind # "ok" THEN {"evaluates"}
                ELSE If(Near(e.x[1], e.a) /\ Near(e.x[Len(e.x)], e.b) /\ (\A k \in 1..(Len(e.x) - 1) : HLt(e.x[k], e.x[k + 1])), "grid")
                     \cup If(NearAll(e.y, [k \in 1..Len(e.x) |-> F(e.c, e.x[k])]), "values") \cup If(Len(e.x) >= e.n, "resolution")
VBins(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET s == HSub(e.got[2], e.got[1])
             eps == HMul(s, "1e-6")
             n == Len(e.got)
             off == IF e.odd THEN "0.5" ELSE "0"
             r == HAdd(HDiv(e.got[1], s), off)
         IN  If(\A k \in 1..(n - 1) : HClose(HSub(e.got[k + 1], e.got[k]), s, "0", "1e-6"), "even")
             \cup If(HLe(e.got[1], HAdd(e.mn, eps)) /\ HLe(HSub(e.mx, eps), e.got[n]), "cover")
             \cup If(\E m \in {"1", "2", "5"}, x \in 0..24 : HClose(s, HMul(m, HPow("10", x - 12)), "0", "1e-6"), "round-step")
             \cup If(HClose(r, HReal(HFloor(HAdd(r, "0.5"))), "1e-6", "0"), "aligned")
             \* the step is the largest round one of at most two of the bins asked for, with a factor 2.5 in between
             \cup If(HLe(s, HMul("1.000001", HDiv(HMul("2", HSub(e.mx, e.mn)), HReal(e.n)))) /\ HLe(HDiv(HMul("2", HSub(e.mx, e.mn)), HReal(e.n)), HMul("2.500001", s)), "number")
             \cup If((IF e.loose THEN HLe(HAdd(e.got[1], s), HAdd(e.mn, eps)) /\ HLe(HSub(e.mx, eps), HSub(e.got[n], s)) ELSE TRUE)
                     /\ HLe(HSub(e.mn, e.got[1]), HMul(s, IF e.loose THEN "2.51" ELSE "1.51")) /\ HLe(HSub(e.got[n], e.mx), HMul(s, IF e.loose THEN "2.51" ELSE "1.51")), "tight")
VStirling(e) == If(\A k \in 1..Len(e.n) : HClose(e.got[k], HSub(HLGamma(HAdd(e.n[k], "1")), HAdd(HDiv(HLog(HMul(HMul("2", HPi), e.n[k])), "2"), HMul(e.n[k], HSub(HLog(e.n[k]), "1")))), "5e-13", "0"), "stirling")
LnBeta(z, w) == HSub(HAdd(HLGamma(z), HLGamma(w)), HLGamma(HAdd(z, w)))
VBeta(e) == If(\A k \in 1..Len(e.z) : HClose(e.got[k], LnBeta(e.z[k], e.w[k]), "1e-11", "1e-11"), "log-beta")
VBinomial(e) == If(\A k \in 1..Len(e.z) : IF HLt(e.z[k], e.w[k]) THEN e.got[k] = "-inf"
                                           ELSE HClose(e.got[k], HSub(HLGamma(HAdd(e.z[k], "1")), HAdd(HLGamma(HAdd(e.w[k], "1")), HLGamma(HAdd(HSub(e.z[k], e.w[k]), "1")))), "1e-9", "1e-11"), "log-binomial")
VPi(e) == IF e.kind # "ok" THEN {"evaluates"}
          ELSE IF e.ofpi THEN If(HClose(HMul(HFrac(e.p, e.q), HPi), e.x, "0", "1e-12"), "value")
          ELSE If(HClose(e.val, e.x, "0", "0.0051"), "value") \cup If(~e.simple, "fraction-of-pi")
VShip(e) ==
    IF e.kind # "ok" THEN {"evaluates"}
    ELSE LET dw == Deadweight(e.name, e.v)
             to(got, want, step) == HLe(HAbs(HSub(got, want)), HAdd(HDiv(step, "2"), HMul("1e-9", want))) /\ LET q == HDiv(got, step) IN HClose(q, HReal(HFloor(HAdd(q, "0.5"))), "1e-9", "0")
             lengthErr == HRPow(e.sc.length, "0.13")
             std(name, want, got) == IF name = e.name THEN HEq(got, "0") ELSE Near(got, want)
         IN  If(to(e.sc.max_deadweight, dw, "1") /\ to(e.sc.length, Length(dw), "1") /\ to(e.sc.beam, Beam(dw), "0.1") /\ to(e.sc.draught, Draught(dw), "0.1") /\ to(e.sc.service_speed, Speed(dw), "0.1")
                /\ Near(e.sc.propeller_diameter, HMul("0.12", HRPow(e.sc.length, "0.75"))), "characteristics")
             \cup If(std("max_deadweight", HMul("0.1", e.sc.max_deadweight), e.sd.max_deadweight) /\ std("length", lengthErr, e.sd.length) /\ std("beam", HMul("0.1", e.sc.beam), e.sd.beam)
                     /\ std("draught", HMul("0.22", e.sc.draught), e.sd.draught) /\ std("service_speed", HMul("0.1", e.sc.service_speed), e.sd.service_speed)
                     /\ std("propeller_diameter", HMul("0.12", HRPow(lengthErr, "0.75")), e.sd.propeller_diameter), "spread")
             \cup If(e.keys = 12, "keys")
VLine(e) == IF e.kind # "ok" THEN {"evaluates"}
            ELSE If(\A k \in 1..Len(e.t) : IF Inside(e.x, e.t[k]) THEN Near(e.got[k], Line(e.x, e.y, e.t[k])) ELSE ~HIsFinite(e.got[k]), "interpolates")
VArea(e) == IF e.kind # "ok" THEN {"evaluates"}
            ELSE If(\A c \in 1..Len(e.ys) : Near(e.got[c], Area(e.x, e.ys[c], e.a, e.b)), "integral")
VCum(e) == IF e.kind # "ok" THEN {"evaluates"} ELSE If(Len(e.got) = Len(e.x) /\ (\A k \in 1..Len(e.x) : Near(e.got[k], Cumulative(e.x, e.y, k))) /\ e.at = e.x, "cumulative")
VGrid(e) == IF e.kind # "ok" THEN {"evaluates"}
            ELSE If(\A k \in 1..Len(e.s) : IF Inside(e.x, e.s[k]) /\ Inside(e.y, e.t[k]) THEN \E w \in TwoWays(e.x, e.y, e.M, e.s[k], e.t[k]) : Near(e.got[k], w) ELSE ~HIsFinite(e.got[k]), "interpolates")
VPlot(e) == IF e.kind # "ok" THEN {"evaluates"}
            ELSE LET id == (e.flag \div 10) % 10
                     \* an integral may be drawn from the second point on
                     o == IF id \in {2, 3, 6, 7} /\ Len(e.gy) = Len(e.y) - 1 THEN 1 ELSE 0
                 IN If(Len(e.gy) = Len(e.y) - o /\ Len(e.gx) = Len(e.gy) /\ (\A k \in 1..Len(e.gy) : Near(e.gy[k], Drawn(id, e.x, e.y, k + o)) /\ Near(e.gx[k], e.x[k + o])), "drawn")
                 \cup If((e.sx = "log") = LogX(e.flag) /\ (e.sy = "log") = LogY(e.flag), "scale") \cup If(e.labels = e.want, "labels")
Verdict(s, e) ==
    CASE e.op = "average" -> VAverage(e) [] e.op = "detrend" -> VDetrend(e) [] e.op = "outliers" -> VOutliers(e) [] e.op = "fourier" -> VFourier(e) [] e.op = "peaks" -> VPeaks(e)
      [] e.op = "linear" -> VLinear(e) [] e.op = "adaptive" -> VAdaptive(e) [] e.op = "bins" -> VBins(e) [] e.op = "stirling" -> VStirling(e) [] e.op = "beta" -> VBeta(e) [] e.op = "binomial" -> VBinomial(e)
      [] e.op = "pi" -> VPi(e) [] e.op = "ship" -> VShip(e) [] e.op = "line" -> VLine(e) [] e.op = "area" -> VArea(e) [] e.op = "cumulative" -> VCum(e) [] e.op = "grid" -> VGrid(e) [] e.op = "plot" -> VPlot(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
