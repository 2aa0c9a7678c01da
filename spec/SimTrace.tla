----------------------------- MODULE SimTrace -------------------------------
EXTENDS Sim
SD == INSTANCE SpecData
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
\* sample covariances c over many cases against r: six and a half standard deviations (2 r0^2/cases bounds the variance)
Near(c, r, r0, cases, slack) == HLe(HAbs(HSub(c, r)), HMul(r0, HAdd(slack, HMul("6.5", HSqrt(HDiv("2", HReal(cases)))))))
Shape(e) == If(e.shape = <<e.rows, e.cases + 1>>, "shape") \cup If(\A i \in 1..Len(e.time) : HClose(e.time[i], HMul(e.dt, HReal(i - 1)), HMul("1e-9", e.dt), "0"), "time")
VLag(e) ==     \* e.kind "acf": r given in e.r (zero beyond); "lines": density; "spec": trapezoidal covariance
    LET lines == IF e.kind = "lines" THEN HzLines(e.x, e.s, e.ft, e.rows, e.dt) ELSE <<>>
        Rk(k) == CASE e.kind = "acf" -> IF k + 1 > Len(e.r) THEN "0" ELSE e.r[k + 1]
                   [] e.kind = "lines" -> LineCov(lines, e.rows, e.dt, k)
                   [] OTHER -> CovAt(e.x, e.s, e.ft, HMul(e.dt, HReal(k)), 0)
        r0 == Rk(0)
    IN  IF e.o # "ok" THEN {"simulates"}
        ELSE Shape(e)
             \cup If(\A k \in 1..Len(e.c) : Near(e.c[k], Rk(e.lags[k]), r0, e.cases, "0.01"), "covariance-of-simulation")
             \cup If(\A k \in 1..Len(e.cross) : Near(e.cross[k], "0", r0, e.cases \div 2, "0"), "cases-independent")
             \cup If(\A k \in 1..Len(e.mean) : HLe(HAbs(e.mean[k]), HMul("6.5", HSqrt(HDiv(r0, HReal(e.cases))))), "zero-mean")
             \cup If(e.zero = "none" \/ HLe(e.zero, HMul("1e-10", HSqrt(r0))), "cases-have-zero-mean")
VDerStat(e) ==   \* derivative of a simulation with Gaussian covariance exp(-(t/s)^2/2)
    LET v == HDiv("1", Sqr(e.s))
        R1(t) == HNeg(HMul(HMul(v, t), HExp(HNeg(HDiv(HMul(v, Sqr(t)), "2")))))
    IN  IF e.o # "ok" THEN {"simulates"}
        ELSE Shape(e) \cup If(Near(e.v, v, v, e.cases, "0.01"), "variance-of-derivative")
             \* cov(x(t), x'(t + k dt)) = r'(k dt)
             \cup If(\A k \in 1..Len(e.c) : Near(e.c[k], R1(HMul(e.dt, HReal(e.lags[k]))), HSqrt(v), e.cases, "0.01"), "covariance-with-derivative")
VDer(e) == IF e.o # "ok" THEN {"simulates"}
           ELSE LET mx == HSqrt(HSum([i \in 1..Len(e.x) |-> Sqr(e.x[i])]))
                IN  If(\A m \in 1..Len(e.x) : HClose(e.d[m], SpecDer(e.x, e.dt, m - 1), HMul("1e-9", HDiv(mx, e.dt)), "0"), "derivative")
                    \cup If(HClose(AmpRe(e.x, Len(e.x) \div 2), "0", HMul("1e-10", mx), "0"), "no-nyquist-component")
VSecond(e) ==
    LET ns == Len(e.x1)  dt == e.dt  df == HDiv("1", HMul(HReal(ns), dt))
        lines == HzLines(e.x, e.s, e.ft, ns, dt)  nl == Len(lines)
        K == IF e.ft = "f" THEN "1" ELSE TwoPi
        inner == TLCEval([i \in 1..(Len(e.x) - 2) |-> HMul(K, e.s[i + 1])])
        smax == inner[CHOOSE i \in DOMAIN inner : \A j \in DOMAIN inner : HLe(inner[j], inner[i])]
        deep == HLt("10000", e.h)
        w0 == SD!AngF(e.x0, e.ft)  s0 == SD!AngS(e.s0, e.ft)  wt == SD!Simpson(w0)
        m0 == SD!Mom(w0, s0, wt, 0, 1)  m2 == SD!Mom(w0, s0, wt, 2, 1)
        Tk(k) == IF deep THEN "1" ELSE HTanh(HMul(k, e.h))
        wbar == HSqrt(HDiv(m2, m0))
        disp == \A q \in {<<wbar, e.kbar>>} \cup {<<e.w[i], e.k[i]>> : i \in 1..Len(e.w)} : HClose(HMul(e.g, HMul(q[2], Tk(q[2]))), Sqr(q[1]), "0", "1e-9")
        amax == HMul(HSqrt(HMul("2", HLog("1000"))), HSqrt(m0))
        fup == HDiv(HMul(e.fnl, HSqrt(HDiv(HMul(e.g, Tk(e.kbar)), amax))), TwoPi)
        flo == IF deep THEN "0" ELSE HDiv(HSqrt(HDiv(HMul(HMul(e.g, Tk(e.kbar)), amax), e.h)), HMul(TwoPi, e.h))
        F(j) == HMul(df, HReal(j))
        edge == \E j \in 1..nl : HClose(F(j), fup, "0", "1e-6") \/ HClose(F(j), flo, "0", "1e-6") \/ HClose(HDiv(lines[j], "2"), HMul(smax, e.rtol), "0", "1e-6")
        A1 == {j \in 1..nl : HLt(HMul(smax, e.rtol), HDiv(lines[j], "2"))}
        A2 == {j \in 1..nl : HLt("0", lines[j])}
        B1 == {j \in 1..nl : HLe(F(j), fup)}
        B2 == {j \in 1..nl : HLe(flo, F(j))}
        Lo(S) == CHOOSE j \in S : \A i \in S : j <= i
        Hi(S) == CHOOSE j \in S : \A i \in S : i <= j
        lo == IF Lo(A1) > Lo(B2) THEN Lo(A1) ELSE Lo(B2)
        hi == IF Hi(A2) < Hi(B1) THEN Hi(A2) ELSE Hi(B1)
        B == IF hi < lo THEN 0 ELSE hi - lo + 1
        ww == TLCEval([i \in 1..B |-> HMul(TwoPi, F(lo + i - 1))])
        kk == TLCEval([i \in 1..B |-> e.k[lo + i - 1]])
        re == TLCEval([i \in 1..B |-> AmpRe(e.x1, lo + i - 1)])
        im == TLCEval([i \in 1..B |-> AmpIm(e.x1, lo + i - 1)])
        ep == EPMat(ww, kk, e.h, e.g, deep)  em == EMMat(ww, kk, e.h, e.g, deep)
        mx == HMul(HSum([i \in 1..B |-> HAdd(HAbs(re[i]), HAbs(im[i]))]), "1")
        bound == HMul("1e-8", HAdd(HMul(Sqr(mx), IF B = 0 THEN "0" ELSE HAdd(HAbs(ep[B][B]), HAbs(em[1][1]))), HMul("1e-6", mx)))
    IN  IF e.o # "ok" THEN {"simulates"}
        ELSE IF A1 = {} \/ A2 = {} \/ B1 = {} \/ B2 = {} THEN {}
        ELSE If(disp /\ \A i \in 1..nl : HClose(e.w[i], HMul(TwoPi, F(i)), "0", "1e-9"), "MACHINERY-witness")
             \cup If(edge \/ \A m \in 1..Len(e.at) : HClose(HSub(e.x2[e.at[m] + 1], e.x1[e.at[m] + 1]), SecondAt(re, im, lo, ww, kk, e.h, e.g, deep, ns, e.at[m], ep, em), bound, "0"), "second-order-part")
RECURSIVE Ord(_)
Ord(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A j \in S : m <= j IN <<m>> \o Ord(S \ {m})
RECURSIVE SeqOf(_)
SeqOf(U) == IF U = {} THEN <<>> ELSE LET p == CHOOSE p \in U : TRUE IN <<p>> \o SeqOf(U \ {p})
\* the summation routine on given amplitudes; lo..hi: 1-based positions of frequencies
VDisufq(e) ==
    LET B == e.hi - e.lo + 1  deep == HLt("10000", e.h)
        Sub(v) == SubSeq(v, e.lo, e.hi)
        w == TLCEval(Sub(e.w))  k == TLCEval(Sub(e.k))  re == TLCEval(Sub(e.re))  im == TLCEval(Sub(e.im))
        ep == EPMat(w, k, e.h, e.g, deep)  em == EMMat(w, k, e.h, e.g, deep)
        S(q) == {p \in (1..B) \X (1..B) : p[1] <= p[2] /\ p[1] + p[2] + 2 * e.lo - 4 = q}   \* sum index q (from 0)
        D(q) == {p \in (1..B) \X (1..B) : p[1] <= p[2] /\ p[2] - p[1] = q}
        F(p) == IF p[1] = p[2] THEN "2" ELSE "4"
        RV(q) == LET s == SeqOf(S(q))  d == SeqOf(D(q)) IN
                 HAdd(HSum([i \in 1..Len(s) |-> LET p == s[i] IN HMul(HMul(F(p), ep[p[1]][p[2]]), HSub(HMul(re[p[1]], re[p[2]]), HMul(im[p[1]], im[p[2]])))]),
                      HSum([i \in 1..Len(d) |-> LET p == d[i] IN HMul(HMul(F(p), em[p[1]][p[2]]), HAdd(HMul(re[p[1]], re[p[2]]), HMul(im[p[1]], im[p[2]])))]))
        IV(q) == LET s == SeqOf(S(q))  d == SeqOf(D(q)) IN
                 HAdd(HSum([i \in 1..Len(s) |-> LET p == s[i] IN HMul(HMul(F(p), ep[p[1]][p[2]]), HAdd(HMul(re[p[1]], im[p[2]]), HMul(im[p[1]], re[p[2]])))]),
                      HSum([i \in 1..Len(d) |-> LET p == d[i] IN HMul(HMul(F(p), em[p[1]][p[2]]), HSub(HMul(re[p[1]], im[p[2]]), HMul(im[p[1]], re[p[2]])))]))
    IN  IF e.rv.kind # "reals" \/ e.iv.kind # "reals" THEN {"returns-vectors"}
        ELSE If(\A i \in 1..Len(e.w) : HClose(HMul(e.g, HMul(e.k[i], IF deep THEN "1" ELSE HTanh(HMul(e.k[i], e.h)))), Sqr(e.w[i]), "1e-12", "1e-8"), "MACHINERY-witness")
             \cup If(Len(e.rv.v) = e.n /\ Len(e.iv.v) = e.n, "length")
             \cup If(\A q \in 0..(e.n - 1) : HClose(e.rv.v[q + 1], RV(q), "1e-8", "1e-7") /\ HClose(e.iv.v[q + 1], IV(q), "1e-8", "1e-7"), "sum-and-difference")
\* conditional simulation: e.acf, e.x with "nan" for unknown, e.tol
VCond(e) ==
    LET n == Len(e.x)
        U == {i \in 1..n : e.x[i] = "nan"}
        u == TLCEval(Ord(U))  o == TLCEval(Ord((1..n) \ U))  nu == Len(u)  no == Len(o)
        R(i, j) == LET k == IF i > j THEN i - j ELSE j - i IN IF k + 1 > Len(e.acf) THEN "0" ELSE e.acf[k + 1]
        Soo == TLCEval([i \in 1..no |-> [j \in 1..no |-> R(o[i], o[j])]])
        Wts(i) == Solve(Soo, TLCEval([j \in 1..no |-> R(o[j], u[i])]))
        W == TLCEval([i \in 1..nu |-> Wts(i)])
        xo == [j \in 1..no |-> e.x[o[j]]]
        mu == TLCEval([i \in 1..nu |-> HDot(W[i], xo)])
        va == TLCEval([i \in 1..nu |-> HSub(e.acf[1], HDot(W[i], [j \in 1..no |-> R(o[j], u[i])]))])
    IN  IF e.o # "ok" THEN {"simulates"}
        ELSE IF Len(e.mu) # nu \/ Len(e.sd) # nu THEN {"length"}
        ELSE IF nu = 0 THEN {}
        ELSE IF no = 0 THEN If(\A i \in 1..nu : HEq(e.mu[i], "0") /\ HClose(e.sd[i], HSqrt(e.acf[1]), "0", "1e-4"), "unconditional")
        ELSE If(HAllClose(e.mu, mu, HMul("1e-3", HSqrt(e.acf[1])), "1e-3"), "conditional-mean")
             \cup If(\A i \in 1..nu : HClose(Sqr(e.sd[i]), va[i], HMul("1e-4", e.acf[1]), "1e-3"), "conditional-deviation")
             \cup If(\A i \in 1..Len(e.smean) : HLe(HAbs(HSub(e.smean[i], mu[i])), HMul(HAdd("6.5", "0.1"), HSqrt(HDiv(HMul("1.01", va[i]), HReal(e.reps))))), "sample-mean")
             \cup If(\A i \in 1..Len(e.svar) : HLe(HAbs(HSub(e.svar[i], va[i])), HMul("7", HMul(va[i], HSqrt(HDiv("2", HReal(e.reps)))))), "sample-variance")
Verdict(s, e) ==
    CASE e.op = "lag" -> VLag(e)
      [] e.op = "derstat" -> VDerStat(e)
      [] e.op = "der" -> VDer(e)
      [] e.op = "second" -> VSecond(e)
      [] e.op = "disufq" -> VDisufq(e)
      [] e.op = "cond" -> VCond(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
