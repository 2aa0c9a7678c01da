-------------------------- MODULE SpecModelsTrace ---------------------------
EXTENDS SpecModels
VARIABLES l, st, bad
If(b, name) == IF b THEN {} ELSE {name}
IsV(r, n) == r.kind = "reals" /\ Len(r.v) = n
\* values v against f(w): relative where the spectrum is not negligible
Match(v, w, f(_), scale, rt) == \A i \in 1..Len(w) : HClose(v[i], f(w[i]), HMul("1e-10", scale), rt)
Level(hm0, tp) == HDiv(Sqr(hm0), Wp(tp))
\* a JONSWAP part: proportional to the raw spectrum, with the right factor
JonOk(v, w, p, method, ag) ==
    LET raw == TLCEval([i \in 1..Len(w) |-> JonRaw(w[i], p)])
        lev == Level(p.hm0, p.tp)
        big == {i \in 1..Len(w) : HLt(HMul("1e-7", lev), raw[i])}
        a == IF HEq(p.gam, "1") THEN "1"
             ELSE IF method = "custom" THEN ag
             ELSE IF method = "parametric" THEN ParAg(p.n, p.m, p.gam)
             ELSE IF big = {} THEN "1"
             ELSE LET i == CHOOSE i \in big : \A j \in big : HLe(raw[j], raw[i]) IN HDiv(v[i], raw[i])
    IN  HLt("0", a) /\ \A i \in 1..Len(w) : HClose(v[i], HMul(a, raw[i]), HMul("1e-10", lev), "1e-7")
\* e.ar: values in quadrature nodes over [0, wnc*wp], weights e.wt
Area(e, p, ar, wt) == HClose(HDot(ar, wt), Sqr(HDiv(p.hm0, "4")), "0", "1e-5")
Par(e) == [hm0 |-> e.hm0, tp |-> e.tp, gam |-> IF e.gam = "none" \/ HLt(e.gam, "1") THEN PeakFact(e.hm0, e.tp) ELSE e.gam, sa |-> e.sa, sb |-> e.sb, n |-> e.n, m |-> e.m]
VModel(e) ==
    IF ~IsV(e.r, Len(e.w)) THEN {"returns-spectrum"}
    ELSE CASE e.model = "bretschneider" -> If(Match(e.r.v, e.w, LAMBDA w : Brett(w, e.hm0, e.tp, e.n, e.m), Level(e.hm0, e.tp), "1e-8"), "formula")
      [] e.model = "wallop" -> LET n == IF e.n = "none" THEN WallopN(e.hm0, e.tp) ELSE e.n
             IN If(Match(e.r.v, e.w, LAMBDA w : Brett(w, e.hm0, e.tp, n, "4"), Level(e.hm0, e.tp), "1e-7"), "formula")
      [] e.model = "mccormick" ->
             If(HClose(McRatio(e.m), HDiv(e.tp, e.tz), "1e-9", "0"), "MACHINERY-witness")
             \cup If(Match(e.r.v, e.w, LAMBDA w : Brett(w, e.hm0, e.tp, HAdd(e.m, "1"), e.m), HMul("1e4", Level(e.hm0, e.tp)), "5e-3"), "formula")
      [] e.model = "ochihubble" -> If(Match(e.r.v, e.w, LAMBDA w : HAdd(OHPart(w, e.hm0, e.par, 1), OHPart(w, e.hm0, e.par, 2)), Level(e.hm0, "6"), "1e-8"), "formula")
      [] e.model = "jonswap" -> LET p == Par(e) IN
             If(JonOk(e.r.v, e.w, p, e.method, e.ag), "formula")
             \cup (IF e.method = "integration" /\ HLt("1", p.gam) THEN If(e.ar # <<>> => Area(e, p, e.ar, e.wt), "energy") ELSE {})
      [] e.model = "tma" -> LET p == Par(e) IN
             If(\A i \in 1..Len(e.w) : IF e.h = "inf" THEN TRUE ELSE HClose(HMul(e.k[i], HTanh(HMul(e.k[i], e.h))), HDiv(Sqr(e.w[i]), e.g), "1e-16", "1e-11"), "MACHINERY-witness")
             \cup If(\A i \in 1..Len(e.w) : LET ph == IF e.h = "inf" THEN "1" ELSE Phi1(e.w[i], e.k[i], e.h, e.g) IN
                     /\ HClose(e.phi[i], ph, "1e-9", "1e-6")
                     /\ HClose(e.r.v[i], HMul(e.jon[i], ph), HMul("1e-10", Level(e.hm0, e.tp)), "1e-6"), "jonswap-times-depth-factor")
             \cup If(JonOk(e.jon, e.w, p, e.method, e.ag), "formula")
      [] e.model = "torsethaugen" -> LET q == Torset(e.hm0, e.tp, e.g) IN
             If(\A i \in 1..Len(e.w) : HClose(e.r.v[i], HAdd(e.wind[i], e.swell[i]), HMul("1e-12", Level(e.hm0, e.tp)), "1e-10"), "wind-plus-swell")
             \cup If(HEq(q.hw, "0") \/ JonOk(e.wind, e.w, [hm0 |-> q.hw, tp |-> q.tw, gam |-> q.gw, sa |-> "0.07", sb |-> "0.09", n |-> q.nw, m |-> q.mw], e.method, "1"), "wind-system")
             \cup If(HEq(q.hs, "0") \/ JonOk(e.swell, e.w, [hm0 |-> q.hs, tp |-> q.ts, gam |-> q.gs, sa |-> "0.07", sb |-> "0.09", n |-> q.ns, m |-> q.ms], e.method, "1"), "swell-system")
             \cup (IF e.ar = <<>> THEN {} ELSE
                   If(HClose(e.art, IF e.which = "wind" THEN q.tw ELSE q.ts, "0", "1e-9"), "MACHINERY-witness")
                   \cup If(HClose(HDot(e.ar, e.wt), Sqr(HDiv(IF e.which = "wind" THEN q.hw ELSE q.hs, "4")), "0", "1e-5"), "energy"))
VSpread(e) ==
    IF e.r.kind # "matrix" THEN {"returns-density"}
    ELSE LET nw == IF e.c.method = "n" /\ Len(e.th0) = 1 THEN 1 ELSE Len(e.wn)
             s == TLCEval([j \in 1..nw |-> SParam(e.c, e.wn[j])])
             Th0(j) == IF Len(e.th0) = 1 THEN e.th0[1] ELSE e.th0[j]
             tight == HMul("1e-9", "1")
         IN  If(\A j \in 1..nw : HClose(R1(e.c.type, e.p[j]), HDiv(s[j], HAdd(s[j], "1")), "1e-9", "0"), "MACHINERY-witness")
             \cup If(Len(e.r.v) = Len(e.th) /\ \A i \in 1..Len(e.th) : Len(e.r.v[i]) = nw, "shape")
             \cup (IF ~(Len(e.r.v) = Len(e.th) /\ \A i \in 1..Len(e.th) : Len(e.r.v[i]) = nw) THEN {} ELSE
               If(\A j \in 1..nw : \A i \in 1..Len(e.th) :
                 LET t == Wrap(HSub(e.th[i], Th0(j)))
                 IN  \/ (e.c.type = "b" /\ HClose(HAbs(t), e.p[j], "1e-5", "0"))
                     \/ HClose(e.r.v[i][j], Spread(e.c.type, e.p[j], t), "1e-6", "1e-4"), "density"))
Verdict(s, e) ==
    CASE e.op = "model" -> VModel(e)
      [] e.op = "peakfact" -> IF ~IsV(e.r, Len(e.h)) THEN {"returns-values"} ELSE If(\A i \in 1..Len(e.h) : HClose(e.r.v[i], PeakFact(e.h[i], e.t[i]), "1e-10", "1e-9"), "formula")
      [] e.op = "seastate" -> IF ~IsV(e.r, 6) THEN {"returns-values"} ELSE If(HAllClose(e.r.v, SeaState(e.u, e.fetch, e.method, e.g), "0", "1e-9"), "formula")
      [] e.op = "spread" -> VSpread(e)
      [] e.op = "product" -> IF e.r.kind # "matrix" THEN {"returns-spectrum"}     \* directional spectrum = spectrum * density
             ELSE If(Len(e.r.v) = Len(e.d) /\ \A i \in 1..Len(e.d) : HAllClose(e.r.v[i], [j \in 1..Len(e.s) |-> HMul(IF Len(e.d[i]) = 1 THEN e.d[i][1] ELSE e.d[i][j], e.s[j])], "1e-12", "1e-10"), "spectrum-times-density")
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
