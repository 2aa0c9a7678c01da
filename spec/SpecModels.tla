----------------------------- MODULE SpecModels -----------------------------
(* Wave spectrum models and directional spreading functions.                 *)
EXTENDS LinAlg
Sqr(x) == HMul(x, x)
\* generalized gamma spectrum in dimensionless form
GenGam(wn, N, M) ==
    IF HLe(wn, "0") THEN "0"
    ELSE LET B == HDiv(N, M)  C == HDiv(HSub(N, "1"), M)  lw == HLog(wn)
             ex == HSub(HSub(HSub(HAdd(HMul(C, HLog(B)), HLog(M)), HLGamma(C)), HMul(N, lw)), HMul(B, HExp(HMul(HNeg(M), lw))))
         IN  IF HLt(ex, "-2000") THEN "0" ELSE HExp(ex)
Wp(Tp) == HDiv(HMul("2", HPi), Tp)
Brett(w, Hm0, Tp, N, M) == HMul(HDiv(Sqr(HDiv(Hm0, "4")), Wp(Tp)), GenGam(HDiv(w, Wp(Tp)), N, M))
PeakFact(Hm0, Tp) ==
    LET x == HDiv(Tp, HSqrt(Hm0))  D == HSub("0.036", HMul("0.0056", x))
    IN  IF HLe(x, "5.14285714285714")
        THEN HMin(HExp(HMul("3.484", HSub("1", HMul(HMul("0.1975", D), HPow(x, 4))))), "7") ELSE "1"
Enhance(wn, gam, sa, sb) ==
    LET s == IF HLt("1", wn) THEN sb ELSE sa
        e == HDiv(Sqr(HDiv(HSub(wn, "1"), s)), "2")
    IN  IF HLt("200", e) THEN "1" ELSE HExp(HMul(HLog(gam), HExp(HNeg(e))))
\* JONSWAP without its normalization factor
JonRaw(w, p) == HMul(Enhance(HDiv(w, Wp(p.tp)), p.gam, p.sa, p.sb), Brett(w, p.hm0, p.tp, p.n, p.m))
ParAg(N, M, gam) ==
    LET f1 == HMul("4.1", HRPow(HAdd(HSub(N, HMul("2", HRPow(M, "0.28"))), "5.3"), HAdd(HMul("-1.45", HRPow(M, "0.1")), "0.96")))
        f2 == HAdd(HSub(HMul(HAdd(HMul("2.2", HRPow(M, "-3.3")), "0.57"), HRPow(N, HAdd(HMul("-0.58", HRPow(M, "0.37")), "0.53"))),
                        HMul("1.04", HRPow(M, "-1.9"))), "0.94")
    IN  HDiv(HAdd("1", HMul(f1, HRPow(HLog(gam), f2))), gam)
\* finite depth factor, k2 the wave number in depth h
Tanh2(k, h) == LET t == HTanh(HMul(k, h)) IN HAdd(t, HMul(HMul(k, h), HSub("1", Sqr(t))))
Phi1(w, k2, h, g) == IF HEq(w, "0") THEN "0" ELSE HDiv(HPow(HDiv(HDiv(Sqr(w), g), k2), 3), Tanh2(k2, h))
\* Torsethaugen: the parameters of the wind and swell systems
Clip01(x) == HMin(HMax(x, "0"), "1")
Torset(H, T, g) ==
    LET Tf == HMul("6.6", HRPow(H, HFrac(1, 3)))
        El == Clip01(HDiv(HSub(Tf, T), HSub(Tf, HMul("2", HSqrt(H)))))
        Eu == Clip01(HDiv(HSub(T, Tf), HSub("25", Tf)))
        N == HAdd(HMul("0.5", HSqrt(H)), "3.2")
        gf == HMul("35", HAdd("1", HMul("3.5", HExp(HNeg(H)))))
    IN  IF HLt(T, Tf)
        THEN LET R == HMin(HAdd(HMul("0.3", HExp(HNeg(Sqr(HDiv(El, "0.5"))))), "0.7"), "1")
                 ga == HMax(HMul(gf, HRPow(HDiv(HMul(HMul(HDiv(HMul("2", HPi), g), R), H), Sqr(T)), "0.857")), "1")
             IN  [hw |-> HMul(R, H), tw |-> T, gw |-> ga, nw |-> N, mw |-> "4",
                  hs |-> HMul(HSqrt(HMax("0", HSub("1", Sqr(R)))), H), ts |-> HAdd(Tf, "2"), gs |-> "1", ns |-> N, ms |-> "4"]
        ELSE LET R == HMin(HAdd(HMul("0.4", HExp(HNeg(Sqr(HDiv(Eu, "0.3"))))), "0.6"), "1")
                 ga == HMax(HMul(HMul(gf, HRPow(HDiv(HMul(HDiv(HMul("2", HPi), g), H), Sqr(Tf)), "0.857")), HAdd("1", HMul("6", Eu))), "1")
                 mw == HMul("4", HSub("1", HMul("0.7", HExp(HDiv(HNeg(H), "3")))))
                 hw == HMul(HSqrt(HMax("0", HSub("1", Sqr(R)))), H)
                 C == HDiv(HSub(N, "1"), mw)
                 G0 == HDiv(HMul(HRPow(HDiv(N, mw), C), mw), HExp(HLGamma(C)))
                 tw == IF HEq(hw, "0") THEN "inf"
                       ELSE HRPow(HDiv(HMul(HMul(HMul("16", "0.08"), HSub("1", HExp(HDiv(HNeg(H), "3")))), HRPow("0.4", N)), HMul(G0, Sqr(hw))),
                                  HDiv("-1", HSub(N, "1")))
             IN  [hw |-> hw, tw |-> tw, gw |-> "1", nw |-> N, mw |-> mw, hs |-> HMul(R, H), ts |-> T, gs |-> ga, ns |-> N, ms |-> "4"]
\* Ochi-Hubble: the eleven parameter sets <<hp1, hp2, wa1, wa2, wb1, wb2, l1, l2, l3>>
OH == << <<"0.84", "0.54", "0.7", "1.15", "0.046", "0.039", "3.0", "1.54", "-0.062">>,
         <<"0.84", "0.54", "0.93", "1.5", "0.056", "0.046", "3.0", "2.77", "-0.112">>,
         <<"0.84", "0.54", "0.41", "0.88", "0.016", "0.026", "2.55", "1.82", "-0.089">>,
         <<"0.84", "0.54", "0.74", "1.3", "0.052", "0.039", "2.65", "3.9", "-0.085">>,
         <<"0.84", "0.54", "0.62", "1.03", "0.039", "0.03", "2.6", "0.53", "-0.069">>,
         <<"0.95", "0.31", "0.7", "1.5", "0.046", "0.046", "1.35", "2.48", "-0.102">>,
         <<"0.65", "0.76", "0.61", "0.94", "0.039", "0.036", "4.95", "2.48", "-0.102">>,
         <<"0.9", "0.44", "0.81", "1.6", "0.052", "0.033", "1.8", "2.95", "-0.105">>,
         <<"0.77", "0.64", "0.54", "0.61", "0.039", "0.0", "4.5", "1.95", "-0.082">>,
         <<"0.73", "0.68", "0.7", "0.99", "0.046", "0.039", "6.4", "1.78", "-0.069">>,
         <<"0.92", "0.39", "0.7", "1.37", "0.046", "0.039", "0.7", "1.78", "-0.069">> >>
OHPart(w, H, par, j) ==
    LET q == OH[par + 1]
        L == IF j = 1 THEN q[7] ELSE HMul(q[8], HExp(HMul(q[9], H)))
        T == HDiv(HMul(HMul("2", HPi), HExp(HMul(q[4 + j], H))), q[2 + j])
    IN  Brett(w, HMul(q[j], H), T, HAdd(HMul("4", L), "1"), "4")
WallopN(H, T) ==
    LET L == HDiv(HMul(HMul("2", HPi), "9.81"), Sqr(Wp(T)))
    IN  HAbs(HDiv(HSub(HAdd(HLog(HMul("2", Sqr(HPi))), HMul("2", HLog(HDiv(H, "4")))), HMul("2", HLog(L))), HLog("2")))
\* ratio Tp/Tz of the McCormick spectrum
McRatio(M) == LET x == HDiv("1", M)  y == HAdd("1", x) IN HDiv(HRPow(y, x), HExp(HLGamma(y)))
\* sea state from wind speed and fetch
SeaState(u, fetch, method, g) ==
    LET z == HDiv(HMul(g, fetch), Sqr(u))
        A == IF method = "h73" THEN HMul("0.076", HRPow(z, "-0.22")) ELSE IF method = "h76" THEN HMul("0.0662", HRPow(z, "-0.2")) ELSE HMul("0.074", HRPow(z, "-0.22"))
        ny == IF method = "h73" THEN HMul("3.5", HRPow(z, "-0.33")) ELSE IF method = "h76" THEN HMul("2.84", HRPow(z, "-0.3")) ELSE HMul("3.57", HRPow(z, "-0.33"))
        e1 == IF method = "h73" THEN HMul("9.91e-8", HRPow(z, "1.1")) ELSE IF method = "h76" THEN HMul("1.6e-7", z)
              ELSE HMul(HMul(HMul("0.0003512", A), HPow(ny, -4)), HRPow(z, "-0.1"))
    IN  <<HDiv(HMul(HMul("4", HSqrt(e1)), Sqr(u)), g), HDiv(u, HMul(ny, g)),
          IF method = "lewis" THEN HMax(HMul("17.54", HRPow(z, "-0.28384")), "1") ELSE "3.3",
          IF method = "lewis" THEN HMul("0.05468", HRPow(ny, "-0.32")) ELSE "0.07",
          IF method = "lewis" THEN HMul("0.078314", HRPow(ny, "-0.16")) ELSE "0.09", A>>
---------------------------------------------------------------------------
\* Spreading.  First Fourier coefficient of each distribution.
RECURSIVE BesTerms(_, _, _, _, _)
BesTerms(q, nu, k, t, acc) == IF k > 12 /\ HLt(t, HMul("1e-40", acc)) THEN acc
                              ELSE LET u == HDiv(HMul(t, q), HReal(k * (k + nu))) IN BesTerms(q, nu, k + 1, u, HAdd(acc, u))
BesI0(x) == BesTerms(HDiv(Sqr(x), "4"), 0, 1, "1", "1")
BesI1(x) == BesTerms(HDiv(Sqr(x), "4"), 1, 1, HDiv(x, "2"), HDiv(x, "2"))
Sinh(x) == HDiv(HSub(HExp(x), HExp(HNeg(x))), "2")
Cosh(x) == HDiv(HAdd(HExp(x), HExp(HNeg(x))), "2")
R1Sech(B) == IF HLe(B, "0.001") THEN "0" ELSE LET x == HDiv(HPi, HMul("2", B)) IN HDiv(x, Sinh(x))
R1(type, p) ==
    CASE type = "c" -> HDiv(p, HAdd(p, "1"))
      [] type = "b" -> IF HEq(p, "0") THEN "1" ELSE HDiv(HSin(p), p)
      [] type = "m" -> IF HEq(p, "0") THEN "0" ELSE HDiv(BesI1(p), BesI0(p))
      [] type = "p" -> p
      [] type = "s" -> R1Sech(p)
      [] type = "w" -> IF p = "inf" THEN "0" ELSE HExp(HDiv(Sqr(p), "-2"))
\* the spread parameter S of the cos-2s distribution for normalized frequency wn
Main(c, wn) == IF HLe(wn, c.lo) THEN "0" ELSE IF HLt(wn, c.cut) THEN HMul(c.sa, HRPow(wn, c.ma)) ELSE HMul(c.sb, HRPow(wn, c.mb))
Fdon(wn) == HRPow("10", HAdd("-0.4", HMul("0.8393", HExp(HMul("-0.567", HMul("2", HLog(wn)))))))
FromB(B) == LET r == R1Sech(B) IN HDiv(r, HSub("1", r))
SParam(c, wn) ==
    LET beyond == c.up # "inf" /\ HLt(c.up, wn)
    IN  CASE c.method = "n" -> c.sa
          [] c.method = "m" -> IF beyond THEN "0" ELSE Main(c, wn)
          [] c.method = "d" -> FromB(IF beyond THEN HMul(c.sb, HRPow(c.up, c.mb)) ELSE Main(c, wn))
          [] c.method = "b" -> FromB(IF beyond THEN HDiv(HMul(HMul(c.sb, HRPow(c.up, c.mb)), Fdon(wn)), Fdon(c.up)) ELSE Main(c, wn))
Wrap(d) == HSub(d, HMul(HMul("2", HPi), HReal(HFloor(HDiv(HAdd(d, HPi), HMul("2", HPi))))))
RECURSIVE WSum(_, _, _)
WSum(D2, t, n) == LET c == HExp(HMul(HReal(-n * n), D2)) IN IF HLt(c, "1e-22") THEN "0" ELSE HAdd(HMul(c, HCos(HMul(HReal(n), t))), WSum(D2, t, n + 1))
\* density in direction difference t (wrapped) for parameter p
Spread(type, p, t) ==
    CASE type = "c" -> LET co == HCos(HDiv(t, "2")) IN
             HMul(HDiv(HExp(HSub(HLGamma(HAdd(p, "1")), HLGamma(HAdd(p, "0.5")))), HMul("2", HSqrt(HPi))),
                  IF HEq(p, "0") THEN "1" ELSE IF HLe(co, "1e-12") THEN "0" ELSE HRPow(co, HMul("2", p)))
      [] type = "b" -> IF HLe(HAbs(t), p) THEN HDiv("1", HMul("2", p)) ELSE "0"
      [] type = "m" -> HDiv(HExp(HMul(p, HCos(t))), HMul(HMul("2", HPi), BesI0(p)))
      [] type = "p" -> HDiv(HDiv(HSub("1", Sqr(p)), HAdd(HSub("1", HMul(HMul("2", p), HCos(t))), Sqr(p))), HMul("2", HPi))
      [] type = "s" -> IF HEq(p, "0") THEN HDiv("1", HMul("2", HPi))
                       ELSE HDiv(HDiv(HMul("0.5", p), HTanh(HMul(HPi, p))), Sqr(Cosh(HMul(p, t))))
      [] type = "w" -> IF p = "inf" THEN HDiv("1", HMul("2", HPi)) ELSE HDiv(HAdd("0.5", WSum(HDiv(Sqr(p), "2"), t, 1)), HPi)
=============================================================================
