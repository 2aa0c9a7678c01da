----------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
SumAbs(y) == HAdd("1e-300", HSum([i \in 1..Len(y) |-> HAbs(y[i])]))
Slope(e) == IF e.scale THEN ScaledSlopes(e.x, e.y, e.method, e.tension) ELSE Slopes(e.x, e.y, e.method, e.tension)
SBound(x, y) == HAdd("1e-300", HSum([i \in 1..Len(x) - 1 |-> HAbs(Sec(x, y, i))]))
\* the slopes fit the data monotonically in every interval
Fits(x, y, yp, i) == LET s == Sec(x, y, i) IN
    IF HEq(s, "0") THEN HEq(yp[i], "0") /\ HEq(yp[i + 1], "0")
    ELSE LET a == HDiv(yp[i], s)  b == HDiv(yp[i + 1], s) IN HLe("0", a) /\ HLe("0", b) /\ HLe(HAdd(HPow(a, 2), HPow(b, 2)), "9.00000001")
VSlopes(e) ==
    LET n == Len(e.x)
        v == TLCEval(Slope(e))  t == HMul("1e-10", SBound(e.x, e.y))
        Ok(k) == (k = 1 \/ Fits(e.x, e.y, v, k - 1)) /\ (k = n \/ Fits(e.x, e.y, v, k))
    IN  IF e.refuse THEN If(e.kind = "ValueError", "refused")
        ELSE IF e.kind # "ok" THEN {"returns-slopes"}
        ELSE IF Len(e.r) # n THEN {"length"}
        ELSE IF ~e.monotone THEN If(\A k \in 1..n : HClose(e.r[k], v[k], t, "0"), "slopes")
        ELSE If(\A i \in 1..n - 1 : Fits(e.x, e.y, e.r, i), "monotone") \cup If(\A k \in 1..n : Ok(k) => HClose(e.r[k], v[k], t, "0"), "slopes-kept")
\* interpolants in points within the data
VInterp(e) ==
    LET yp == IF e.given THEN e.yp ELSE TLCEval(Slope(e))
        t == HMul("1e-9", HAdd(SumAbs(e.y), HMul(HAdd(SumAbs(yp), SBound(e.x, e.y)), HSub(e.x[Len(e.x)], e.x[1]))))
        V(u) == IF e.kindof = "stineman" THEN StInterp(e.x, e.y, yp, u) ELSE Hermite(e.x, e.y, yp, u)
    IN  IF e.kind # "ok" THEN {"interpolates"}
        ELSE If(Len(e.r) = Len(e.t) /\ \A k \in 1..Len(e.t) : HClose(e.r[k], V(e.t[k]), t, "0"), "interpolant")
In(e, t) == ~HLt(t, e.a) /\ ~HLt(e.b, t)
VPP(e) ==
    LET nb == Len(e.br)
        Lin(t) == LET d == PPD(e.c) IN IF HLt(t, e.br[1]) THEN HAdd(PPAt(e.c, e.br, e.br[1]), HMul(PPAt(d, e.br, e.br[1]), HSub(t, e.br[1])))
                                     ELSE LET q == nb - 1  h == HSub(e.br[nb], e.br[q]) IN HAdd(Horner(e.c, q, h, Len(e.c)), HMul(Horner(d, q, h, Len(d)), HSub(t, e.br[nb])))
        V(t) == IF e.what = "lin" /\ (HLt(t, e.br[1]) \/ HLe(e.br[nb], t)) THEN Lin(t)
                ELSE IF e.what # "lin" /\ ~In(e, t) THEN e.fill
                ELSE CASE e.what \in {"value", "lin"} -> PPAt(e.c, e.br, t) [] e.what = "derivative" -> PPAt(PPD(e.c), e.br, t) [] e.what = "integral" -> PPInt(e.c, e.br, t)
                       [] e.what = "back" -> PPAt(e.c, e.br, t)
        S == HAdd("1", HSum([m \in 1..Len(e.c) |-> SumAbs(e.c[m])]))
    IN  IF e.kind # "ok" THEN {"evaluates"}
        ELSE If(e.shape, "shape") \cup If(Len(e.r) = Len(e.t) /\ \A k \in 1..Len(e.t) : HClose(e.r[k], V(e.t[k]), HMul("1e-9", S), "1e-9"), "piecewise-polynomial")
\* smoothing spline: x sorted, y and var with it; f: four values in each interval; e.out: <<t, f, slope>> outside
VSpline(e) ==
    LET n == Len(e.x)
        c == TLCEval([i \in 1..n - 1 |-> Cubic(e.t[i], e.f[i])])
        p == IF e.hasp THEN e.p ELSE AutoP(e.x, e.var)
        F(i) == IF i < n THEN e.f[i][1] ELSE e.f[n - 1][4]
        Third(i) == IF i = 0 \/ i = n THEN "0" ELSE c[i].d3
        R(i) == HDiv(HSub(e.y[i], F(i)), e.var[i])
        hmin == MinH([i \in 1..n - 1 |-> Dx(e.x, i)])
        Y == HAdd(SumAbs(e.y), "1e-300")
        t(k) == HMul("1e-9", HDiv(Y, HPow(hmin, k)))
    IN  IF e.kind # "ok" THEN {"fits"}
        ELSE IF n = 2 THEN If(\A j \in 1..4 : HClose(e.f[1][j], HAdd(e.y[1], HMul(Sec(e.x, e.y, 1), HSub(e.t[1][j], e.x[1]))), t(0), "0"), "straight-line")
        ELSE If(\A i \in 1..n - 2 : HClose(e.f[i][4], e.f[i + 1][1], t(0), "0") /\ HClose(c[i].b1, c[i + 1].a1, t(1), "0") /\ HClose(c[i].b2, c[i + 1].a2, t(2), "0"), "smooth")
             \cup If(HClose(c[1].a2, "0", t(2), "0") /\ HClose(c[n - 1].b2, "0", t(2), "0"), "natural-ends")
             \cup If(\A i \in 1..n : HClose(HMul(HSub("1", p), HSub(Third(i), Third(i - 1))), HMul(p, R(i)), HMul("10", t(3)), "0"), "minimizes")
             \cup If(~HLt("0.99999", p) \/ ~HEq(p, "1") \/ \A i \in 1..n : HClose(F(i), e.y[i], t(0), "0"), "interpolates")
             \cup If(~HEq(p, "0") \/ (HClose(HSum([i \in 1..n |-> R(i)]), "0", HMul(HReal(n), t(0)), "0") /\ HClose(HSum([i \in 1..n |-> HMul(R(i), e.x[i])]), "0", HMul(HMul(HReal(n), t(0)), SumAbs(e.x)), "0")), "straight-line")
             \cup If(~e.lin \/ \A q \in 1..Len(e.ot) : LET u == e.ot[q] IN HClose(e.of[q], IF HLt(u, e.x[1]) THEN HAdd(F(1), HMul(c[1].a1, HSub(u, e.x[1]))) ELSE HAdd(F(n), HMul(c[n - 1].b1, HSub(u, e.x[n]))), HMul(t(1), "100"), "0"), "linear-extrapolation")
VSG(e) ==
    LET v == SG1(e.y, e.n, e.deg, e.d)
        P(a, b) == SG1(SubSeq(e.y, a, b), e.n, e.deg, e.d)
        w == IF e.turn = 0 THEN v ELSE P(1, e.turn) \o P(e.turn + 1, Len(e.y))
    IN  IF e.refuse THEN If(e.kind = "TypeError", "refused")
        ELSE IF e.kind # "ok" THEN {"filters"} ELSE If(Len(e.r) = Len(w) /\ \A i \in 1..Len(w) : HClose(e.r[i], w[i], HMul("1e-8", SumAbs(e.y)), "0"), "local-polynomial")
VSG2(e) ==
    LET Su == TLCEval([q \in 1..Len(e.at) |-> Surface(e.z, e.at[q][1], e.at[q][2], e.n, e.order)])
    IN  IF e.kind # "ok" THEN {"filters"} ELSE If(Len(e.r) = Len(e.at) /\ \A q \in 1..Len(e.at) : HClose(e.r[q], Su[q][e.coef], "1e-8", "1e-8"), "local-surface")
Verdict(s, e) ==
    CASE e.op = "slopes" -> VSlopes(e) [] e.op = "interp" -> VInterp(e) [] e.op = "pp" -> VPP(e) [] e.op = "spline" -> VSpline(e)
      [] e.op = "sg" -> VSG(e) [] e.op = "sg2" -> VSG2(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
