-------------------------- MODULE WaveTheoryTrace ---------------------------
EXTENDS WaveTheory
VARIABLES l, st, bad
If(b, name) == IF b THEN {} ELSE {name}
\* e.w, e.th, e.h, e.g elementwise (already broadcast); r1, r2 the wave numbers
VW2k(e) ==
    IF e.r.kind # "reals" \/ e.r2.kind # "reals" THEN {"returns-wave-numbers"}
    ELSE If(Len(e.r.v) = Len(e.w) /\ Len(e.r2.v) = Len(e.w), "shape")
         \cup (IF Len(e.r.v) # Len(e.w) \/ Len(e.r2.v) # Len(e.w) THEN {} ELSE
         If(\A i \in 1..Len(e.w) :
              LET a == e.r.v[i]  b == HMul(e.r2.v[i], e.gr)
                  k == HSqrt(HAdd(HMul(a, a), HMul(b, b)))
                  w2 == HDiv(HMul(e.w[i], e.w[i]), e.g)
              IN  HIsFinite(k) /\ HClose(Disp(k, e.h[i]), w2, "1e-13", "1e-6"), "dispersion-relation")
         \cup If(\A i \in 1..Len(e.w) :
              LET a == e.r.v[i]  b == HMul(e.r2.v[i], e.gr)
                  k == HSqrt(HAdd(HMul(a, a), HMul(b, b)))
                  s == IF HLt(e.w[i], "0") THEN HNeg(k) ELSE k
              IN  HClose(a, HMul(s, HCos(e.th[i])), HAdd("1e-13", HMul("1e-9", k)), "0")
                  /\ HClose(b, HMul(s, HSin(e.th[i])), HAdd("1e-13", HMul("1e-9", k)), "0"), "direction"))
VK2w(e) ==
    IF e.r.kind # "reals" \/ e.r2.kind # "reals" THEN {"returns-frequencies"}
    ELSE If(Len(e.r.v) = Len(e.k1), "shape")
         \cup (IF Len(e.r.v) # Len(e.k1) THEN {} ELSE If(\A i \in 1..Len(e.k1) :
              LET k == HSqrt(HAdd(HMul(e.k1[i], e.k1[i]), HMul(e.k2[i], e.k2[i])))
                  w == IF HEq(k, "0") THEN "0"
                       ELSE HAdd(HAdd(HMul(e.k1[i], e.u1), HMul(e.k2[i], e.u2)), HSqrt(HMul(e.g, Disp(k, e.h[i]))))
              IN  HClose(e.r.v[i], HMax(w, "0"), "1e-10", "1e-10"), "dispersion-relation"))
         \cup If(Len(e.r2.v) = Len(e.a) /\ \A i \in 1..Len(e.a) :
              LET k == HSqrt(HAdd(HMul(e.a[i], e.a[i]), HMul(e.b[i], e.b[i])))
              IN  HClose(HMul(k, HCos(e.r2.v[i])), e.a[i], HMul("1e-10", k), "0") /\ HClose(HMul(k, HSin(e.r2.v[i])), e.b[i], HMul("1e-10", k), "0"), "direction")
VHyp(e) == IF e.r.kind # "reals" THEN {"returns-values"}
           ELSE If(Len(e.r.v) = Len(e.a) /\ \A i \in 1..Len(e.a) :
                   IF e.sb < 0 /\ HEq(e.b[i], "0") THEN (e.sa < 0 /\ HEq(e.a[i], "0")) \/ ~HIsFinite(e.r.v[i])
                   ELSE HClose(e.r.v[i], HypRatio(e.a[i], e.b[i], e.sa, e.sb), "1e-300", "1e-9"), "ratio")
\* the wave number given is a witness: checked here
VTran(e) ==
    IF e.r.kind # "tran" THEN {"returns-transfer-function"}
    ELSE If(\A j \in 1..Len(e.w) : HClose(Disp(e.k[j], e.c.h), HDiv(HMul(e.w[j], e.w[j]), e.c.g), "1e-16", "1e-11"), "MACHINERY-witness")
         \cup If(Len(e.r.hw) = Len(e.w) /\ \A j \in 1..Len(e.w) : HLe("0", e.r.hw[j]), "frequency-part-nonnegative")
         \cup If(Len(e.r.re) = Len(e.th) /\ \A i \in 1..Len(e.th) : Len(e.r.re[i]) = Len(e.w) /\ \A j \in 1..Len(e.w) :
                  LET want == Transfer(e.c, e.w[j], e.k[j], e.th[i])
                      got == CScale(e.r.hw[j], <<e.r.re[i][j], e.r.im[i][j]>>)
                  IN  CClose(got, want, HMul("1e-5", HAdd("1e-12", CAbs(want)))), "transfer-function")
\* wave_pressure
VPres(e) == IF e.r.kind # "reals" THEN {"returns-pressure"}
            ELSE If(HClose(Disp(e.k, e.h), HDiv(HMul(e.w, e.w), e.g), "1e-16", "1e-11"), "MACHINERY-witness")
            \cup If(Len(e.r.v) = Len(e.z) /\ \A i \in 1..Len(e.z) :
                 HClose(e.r.v[i], HMul(HDiv(HMul(HMul(e.rho, e.g), e.hm0), "2"), HypRatio(HMul(e.k, HAdd(e.h, e.z[i])), HMul(e.k, e.h), 1, 1)), "1e-9", "1e-4"), "linear-pressure")
Verdict(s, e) ==
    CASE e.op = "w2k" -> VW2k(e)
      [] e.op = "k2w" -> VK2w(e)
      [] e.op = "hyp" -> VHyp(e)
      [] e.op = "tran" -> VTran(e)
      [] e.op = "pressure" -> VPres(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
