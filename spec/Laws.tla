-------------------------------- MODULE Laws --------------------------------
(* Families of probability laws: z is the value less the location over the   *)
(* scale, s the sequence of shape parameters.                                *)
EXTENDS HPReal, Integers, Sequences, TLC
One(v) == HSub("1", v)
\* -log of survival (or of the distribution function) in closed form
SqD(c, z) == HDiv(HSub(HPow(HAdd(z, c), 2), HPow(c, 2)), "2")
InLaw(n, s, z) ==
    CASE n \in {"norm", "gumbel_r"} -> TRUE
      [] n \in {"expon", "rayleigh", "weibull_min", "truncrayleigh", "genexpon", "exponweib", "burr", "lognorm"} -> HLt("0", z)
      [] n = "genpareto" -> HLt("0", z) /\ HLt("0", HAdd("1", HMul(s[1], z)))
      [] n = "genextreme" -> HLt("0", HSub("1", HMul(s[1], z)))
\* cumulative hazard of the families with a simple survival function
Haz(n, s, z) ==
    CASE n = "expon" -> z
      [] n = "rayleigh" -> HDiv(HPow(z, 2), "2")
      [] n = "weibull_min" -> HRPow(z, s[1])
      [] n = "truncrayleigh" -> SqD(s[1], z)
      [] n = "genpareto" -> IF HEq(s[1], "0") THEN z ELSE HDiv(HLog(HAdd("1", HMul(s[1], z))), s[1])
      [] n = "genexpon" -> HAdd(HMul(s[1], z), HMul(s[2], HSub(z, HDiv(One(HExp(HNeg(HMul(s[3], z)))), s[3]))))
\* -log of the distribution function of the others
Rev(n, s, z) ==
    CASE n = "gumbel_r" -> HExp(HNeg(z))
      [] n = "genextreme" -> IF HEq(s[1], "0") THEN HExp(HNeg(z)) ELSE HRPow(HSub("1", HMul(s[1], z)), HDiv("1", s[1]))
      [] n = "exponweib" -> HNeg(HMul(s[1], HLog(One(HExp(HNeg(HRPow(z, s[2])))))))
      [] n = "burr" -> HMul(s[2], HLog(HAdd("1", HRPow(z, HNeg(s[1])))))
ByHaz == {"expon", "rayleigh", "weibull_min", "truncrayleigh", "genpareto", "genexpon"}
Score(n, s, z) == IF n = "lognorm" THEN HDiv(HLog(z), s[1]) ELSE z
CdfZ(n, s, z) == IF n \in {"norm", "lognorm"} THEN HPhi(Score(n, s, z)) ELSE IF n \in ByHaz THEN One(HExp(HNeg(Haz(n, s, z)))) ELSE HExp(HNeg(Rev(n, s, z)))
SfZ(n, s, z) == IF n \in {"norm", "lognorm"} THEN HPhi(HNeg(Score(n, s, z))) ELSE IF n \in ByHaz THEN HExp(HNeg(Haz(n, s, z))) ELSE One(HExp(HNeg(Rev(n, s, z))))
LogPdfZ(n, s, z) ==
    CASE n = "norm" -> HNeg(HDiv(HAdd(HPow(z, 2), HLog(HMul("2", HPi))), "2"))
      [] n = "lognorm" -> HNeg(HSum(<<HDiv(HAdd(HPow(HDiv(HLog(z), s[1]), 2), HLog(HMul("2", HPi))), "2"), HLog(s[1]), HLog(z)>>))
      [] n = "expon" -> HNeg(z)
      [] n = "rayleigh" -> HSub(HLog(z), Haz(n, s, z))
      [] n = "weibull_min" -> HSum(<<HLog(s[1]), HMul(HSub(s[1], "1"), HLog(z)), HNeg(Haz(n, s, z))>>)
      [] n = "truncrayleigh" -> HSub(HLog(HAdd(z, s[1])), Haz(n, s, z))
      [] n = "genpareto" -> HNeg(HAdd(Haz(n, s, z), HLog(HAdd("1", HMul(s[1], z)))))
      [] n = "genexpon" -> HSub(HLog(HAdd(s[1], HMul(s[2], One(HExp(HNeg(HMul(s[3], z))))))), Haz(n, s, z))
      [] n = "gumbel_r" -> HNeg(HAdd(z, HExp(HNeg(z))))
      [] n = "genextreme" -> IF HEq(s[1], "0") THEN HNeg(HAdd(z, HExp(HNeg(z)))) ELSE LET u == HLog(HSub("1", HMul(s[1], z))) IN HSub(HMul(HSub(HDiv("1", s[1]), "1"), u), HExp(HDiv(u, s[1])))
      [] n = "exponweib" -> LET w == HRPow(z, s[2]) IN HSum(<<HLog(s[1]), HLog(s[2]), HMul(HSub(s[1], "1"), HLog(One(HExp(HNeg(w))))), HNeg(w), HMul(HSub(s[2], "1"), HLog(z))>>)
      [] n = "burr" -> HSum(<<HLog(s[1]), HLog(s[2]), HNeg(HMul(HAdd(s[1], "1"), HLog(z))), HNeg(HMul(HAdd(s[2], "1"), HLog(HAdd("1", HRPow(z, HNeg(s[1]))))))>>)
\* th: shapes, location, scale
Shapes(th) == SubSeq(th, 1, Len(th) - 2)
Zof(th, x) == HDiv(HSub(x, th[Len(th) - 1]), th[Len(th)])
Inside(n, th, x) == InLaw(n, Shapes(th), Zof(th, x))
Below(n, th, x) == LET z == Zof(th, x) IN IF n = "genextreme" THEN HLt(Shapes(th)[1], "0") ELSE IF n = "genpareto" THEN HLe(z, "0") ELSE HLe(z, "0")
Cdf(n, th, x) == IF Inside(n, th, x) THEN CdfZ(n, Shapes(th), Zof(th, x)) ELSE IF Below(n, th, x) THEN "0" ELSE "1"
Sf(n, th, x) == IF Inside(n, th, x) THEN SfZ(n, Shapes(th), Zof(th, x)) ELSE IF Below(n, th, x) THEN "1" ELSE "0"
LogPdf(n, th, x) == HSub(LogPdfZ(n, Shapes(th), Zof(th, x)), HLog(th[Len(th)]))
\* moments of the truncated Rayleigh law: integrals of k x^(k-1) times survival
TRMean(c) == HMul(HMul(HSqrt(HMul("2", HPi)), HExp(HDiv(HPow(c, 2), "2"))), HPhi(HNeg(c)))
TRRaw(c) ==
    LET m == TRMean(c)  c2 == HPow(c, 2)
    IN  <<m, HMul("2", HSub("1", HMul(c, m))), HMul("3", HSub(HMul(m, HAdd("1", c2)), c)),
          HMul("4", HSub(HAdd("2", c2), HMul(HMul(m, c), HAdd("3", c2))))>>
\* exponential integral by its series
Gamma0 == "0.57721566490153286060651209008240243104215933593992"
RECURSIVE E1S(_, _, _)
E1S(a, k, term) == IF k > 150 THEN "0" ELSE LET t == HNeg(HDiv(HMul(term, a), HReal(k))) IN HAdd(HDiv(t, HReal(k)), E1S(a, k + 1, t))
E1(a) == HNeg(HSum(<<Gamma0, HLog(a), E1S(a, 1, "1")>>))
TREntropy(c) ==
    IF HEq(c, "0") THEN HSub(HAdd("1", HDiv(Gamma0, "2")), HDiv(HLog("2"), "2"))
    ELSE LET a == HDiv(HPow(c, 2), "2") IN HSub("1", HAdd(HLog(c), HDiv(HMul(HExp(a), E1(a)), "2")))
\* central moments from raw ones: variance, skewness, excess kurtosis
Central(m) ==
    LET v == HSub(m[2], HPow(m[1], 2))
        c3 == HSum(<<m[3], HNeg(HMul("3", HMul(m[1], m[2]))), HMul("2", HPow(m[1], 3))>>)
        c4 == HSum(<<m[4], HNeg(HMul("4", HMul(m[1], m[3]))), HMul("6", HMul(HPow(m[1], 2), m[2])), HNeg(HMul("3", HPow(m[1], 4)))>>)
    IN  <<v, HDiv(c3, HMul(v, HSqrt(v))), HSub(HDiv(c4, HPow(v, 2)), "3")>>
\* number of successes of independent trials, trial by trial
RECURSIVE Trials(_)
Trials(p) == IF p = <<>> THEN <<"1">>
             ELSE LET w == TLCEval(Trials(SubSeq(p, 1, Len(p) - 1)))  q == p[Len(p)]
                  IN  TLCEval([k \in 1..Len(w) + 1 |-> HAdd(IF k <= Len(w) THEN HMul(w[k], HSub("1", q)) ELSE "0", IF k > 1 THEN HMul(w[k - 1], q) ELSE "0")])
=============================================================================
