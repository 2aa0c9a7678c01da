----------------------------- MODULE PolyTrace ------------------------------
EXTENDS Poly
VARIABLES l, st, bad
If(b, name) == IF b THEN {} ELSE {name}
\* two polynomials in power form agree as functions on [-2, 2]
Samples == <<"-2", "-1.25", "-0.5", "0", "0.375", "1", "1.75">>
SameFun(v, f(_), mag(_), xs) == \A i \in 1..Len(xs) : HClose(PVal(v, xs[i]), f(xs[i]), HMul("1e-9", HAdd(mag(xs[i]), PMag(v, xs[i]))), "1e-9")
\* coefficientwise
SameCoef(v, w) == Len(v) = Len(w) /\ HAllClose(v, w, "1e-12", "1e-9")
Strip(v) == IF \A i \in 1..Len(v) : HEq(v[i], "0") THEN <<>>
            ELSE LET k == CHOOSE k \in 1..Len(v) : ~HEq(v[k], "0") /\ \A j \in 1..(k - 1) : HEq(v[j], "0") IN SubSeq(v, k, Len(v))
VAlg(e) ==   \* e.p, result e.r.v, one polynomial
    IF e.r.kind # "reals" THEN {"returns-coefficients"}
    ELSE CASE e.f = "polyder" -> If(SameCoef(Strip(e.r.v), Strip(PDer(e.p, e.m))), "derivative")
           [] e.f = "polyint" -> If(SameCoef(e.r.v, PInt(e.p, e.m, e.ks)), "antiderivative")
           [] e.f = "polyreloc" -> If(Len(e.r.v) = Len(e.p) /\ SameFun(e.r.v, LAMBDA t : HAdd(PVal(e.p, HSub(t, e.x)), e.y),
                                       LAMBDA t : HAdd(PMag(e.p, HAdd(HAbs(t), HAbs(e.x))), HAbs(e.y)), Samples), "relocated")
           [] e.f = "polyrescl" -> If(Len(e.r.v) = Len(e.p) /\ SameFun(e.r.v, LAMBDA t : HMul(e.y, PVal(e.p, HDiv(t, e.x))),
                                       LAMBDA t : HMul(HAbs(e.y), PMag(e.p, HDiv(t, e.x))), Samples), "rescaled")
           [] e.f = "polyshift" -> If(SameFun(e.r.v, LAMBDA t : PVal(e.p, MapFrom(t, e.a, e.b)),
                                       LAMBDA t : PMag(e.p, HAdd("1", HAbs(MapFrom(t, e.a, e.b)))), Samples), "shifted")
           [] e.f = "polyishift" -> If(SameFun(e.r.v, LAMBDA t : PVal(e.p, MapTo(t, e.a, e.b)),
                                       LAMBDA t : PMag(e.p, HAdd(HAdd(HAbs(e.a), HAbs(e.b)), HAbs(MapTo(t, e.a, e.b)))), Samples), "shifted-back")
           [] e.f = "polytrim" -> If(SameCoef(e.r.v, Strip(e.p)), "trimmed")
           [] e.f = "cheb2poly" -> If(SameFun(e.r.v, LAMBDA t : CVal(e.p, MapFrom(t, e.a, e.b), 1),
                                       LAMBDA t : HMul(SumAbs(e.p), HPow(HAdd("3", HMul("3", HAbs(MapFrom(t, e.a, e.b)))), Len(e.p))),
                                       <<e.a, e.b, HDiv(HAdd(e.a, e.b), "2"), HDiv(HAdd(e.a, HMul("3", e.b)), "4")>>), "same-polynomial")
           [] e.f = "poly2cheb" -> LET q == Strip(e.p) IN If(Len(e.r.v) = Len(q) /\ \A i \in 1..Len(Samples) :
                                       LET t == Samples[i]  x == MapTo(t, e.a, e.b) IN
                                       HClose(CVal(e.r.v, t, 1), PVal(e.p, x), HMul("1e-9", HMul(HPow("7", Len(e.p)), HAdd(PMag(e.p, HAdd(HAbs(e.a), HAbs(e.b))), SumAbs(e.p)))), "1e-9"), "same-polynomial")
\* a matrix of polynomials, column by column: only the rows that are zero in every column are removed
VTrim(e) == IF e.r.kind # "cols" THEN {"returns-matrix"}
            ELSE LET n == Len(e.p[1])
                     lead == {k \in 0..n : \A c \in 1..Len(e.p) : \A i \in 1..k : HEq(e.p[c][i], "0")}
                     k == CHOOSE k \in lead : \A j \in lead : j <= k
                 IN  If(Len(e.r.v) = Len(e.p) /\ \A c \in 1..Len(e.p) : (e.r.v[c] = <<>> /\ k = n) \/ SameCoef(e.r.v[c], SubSeq(e.p[c], k + 1, n)), "trimmed-columns")
\* string forms: e.v = value of the string in e.x
VStr(e) == IF e.r.kind # "reals" THEN {"returns-expression"}
           ELSE If(\A i \in 1..Len(e.x) : HClose(e.r.v[i], PVal(e.p, e.x[i]), HMul("1e-12", HAdd("1", PMag(e.p, e.x[i]))), "0"), "string-value")
VCheb(e) ==
    IF e.r.kind # "reals" THEN {"returns-values"}
    ELSE If(Len(e.r.v) = Len(e.x) /\ \A i \in 1..Len(e.x) :
             LET t == MapFrom(e.x[i], e.a, e.b)
                 w == IF e.fill # "none" /\ HLt(HAdd("1", "1e-12"), HAbs(t)) THEN e.fill ELSE CVal(e.ck, t, e.kind)
                 near == e.fill # "none" /\ HClose(HAbs(t), "1", "1e-12", "0")
             IN  near \/ HClose(e.r.v[i], w, HMul("1e-10", HMul(SumAbs(e.ck), HPow(HMax("1", HMul("3", HAbs(t))), Len(e.ck)))), "1e-10"), "chebyshev-sum")
\* derivative and integral in Chebyshev form, judged as functions
CDerVal(ck, t) ==     \* d/dt of sum c_j T_j is sum j c_j U_{j-1}
    LET c == Rev(ck)  n == Len(ck)
    IN  IF n <= 1 THEN "0" ELSE LET u == ChebSeq(n - 2, t, 2) IN HSum([j \in 1..(n - 1) |-> HMul(HMul(HReal(j), c[j + 1]), u[j])])
Ts == <<"-1", "-0.6875", "-0.25", "0", "0.125", "0.5", "1">>
VDer(e) == IF e.r.kind # "reals" THEN {"returns-coefficients"}
           ELSE LET sc == HDiv("2", HSub(e.b, e.a))  n == Len(e.ck)
                IN  If(Len(e.r.v) >= 1 /\ \A i \in 1..Len(Ts) : HClose(CVal(e.r.v, Ts[i], 1), HMul(sc, CDerVal(e.ck, Ts[i])),
                          HMul("1e-10", HMul(HAbs(sc), HMul(HReal(n * n + 1), SumAbs(e.ck)))), "0"), "derivative")
VInt(e) == IF e.r.kind # "reals" THEN {"returns-coefficients"}
           ELSE LET sc == HDiv("2", HSub(e.b, e.a))  n == Len(e.ck)
                    tol == HMul("1e-10", HMul(HReal(n * n + 1), HAdd(SumAbs(e.ck), HMul(HAbs(sc), SumAbs(e.r.v)))))
                IN  If(Len(e.r.v) >= 1 /\ \A i \in 1..Len(Ts) : HClose(HMul(sc, CDerVal(e.r.v, Ts[i])), CVal(e.ck, Ts[i], 1), tol, "0"), "antiderivative")
                    \cup If(HClose(CVal(e.r.v, "-1", 1), "0", HMul("1e-10", SumAbs(e.r.v)), "0"), "zero-at-lower-limit")
\* Chebyshev interpolation: the series takes the values f in the nodes x
VFit(e) == IF e.r.kind # "reals" THEN {"returns-coefficients"}
           ELSE If(Len(e.r.v) = Len(e.f) /\ \A i \in 1..Len(e.f) :
                    HClose(CVal(IF e.low THEN Rev(e.r.v) ELSE e.r.v, HNeg(HCos(HDiv(HMul(HPi, HReal(2 * i - 1)), HReal(2 * Len(e.f))))), 1), e.f[i], HAdd("1e-15", HMul("1e-10", SumAbs(e.f))), "0"), "interpolates")
\* N-dimensional series with coefficients c[i][j] (low to high) in points
CVal2(c, x, y) == LET tx == ChebSeq(Len(c) - 1, x, 1)  ty == ChebSeq(Len(c[1]) - 1, y, 1)
                  IN  HSum([i \in 1..Len(c) |-> HMul(tx[i], HDot(c[i], ty))])
SumAbs2(c) == HSum([i \in 1..Len(c) |-> SumAbs(c[i])])
VVal2(e) == IF e.r.kind # "reals" THEN {"returns-values"}
            ELSE If(Len(e.r.v) = Len(e.x) /\ \A i \in 1..Len(e.x) : HClose(e.r.v[i], CVal2(e.c, e.x[i], e.y[i]), HMul("1e-11", SumAbs2(e.c)), "0"), "tensor-sum")
VSame2(e) == IF e.r.kind # "reals" THEN {"returns-coefficients"}     \* recovered coefficients
             ELSE If(Len(e.r.v) = Len(e.c) /\ \A i \in 1..Len(e.c) : Len(e.r.v[i]) = Len(e.c[i]) /\ HAllClose(e.r.v[i], e.c[i], HMul("1e-8", SumAbs2(e.c)), "0"), "coefficients-recovered")
\* least squares by orthogonal polynomials
VOrtho(e) == IF e.r.kind # "reals" THEN {"returns-values"}
             ELSE LET A == TLCEval([i \in 1..Len(e.x) |-> [j \in 1..(e.n + 1) |-> HPow(e.x[i], e.n + 1 - j)]])
                      c == LeastSq(A, e.y)
                  IN  If(\A i \in 1..Len(e.xi) : HClose(e.r.v[i], PVal(c, e.xi[i]), HMul("1e-7", HAdd(SumAbs(e.y), "0")), "0"), "least-squares-fit")
\* Pade: p - q c = O(x^(m+k+1)), with q(0) = 1; p, q, c from high to low
Low(s, i) == IF i < 0 \/ i >= Len(s) THEN "0" ELSE s[Len(s) - i]
VPade(e) == IF e.r.kind # "pade" THEN {"returns-rational"}
            ELSE LET n == Len(e.c) - 1
                 IN  If(HEq(Low(e.r.q, 0), "1") /\ Len(e.r.q) <= e.m + 1 /\ Len(e.r.p) <= n - e.m + 1, "degrees")
                     \cup If(\A i \in 0..n : HClose(Low(e.r.p, i), HSum([j \in 1..(i + 1) |-> HMul(Low(e.r.q, j - 1), Low(e.c, i - j + 1))]),
                               HMul("1e-8", HMul(SumAbs(e.c), SumAbs(e.r.q))), "0"), "taylor-coefficients")
\* a rational function of the given degrees is recovered as a function
VRat(e) == IF e.r.kind # "pade" THEN {"returns-rational"}
           ELSE If(\A i \in 1..Len(e.x) : LET x == e.x[i] IN
                   HClose(HDiv(PVal(e.r.p, x), PVal(e.r.q, x)), HDiv(PVal(e.p, x), PVal(e.q, x)), "1e-6", "1e-6"), "rational-recovered")
Verdict(s, e) ==
    CASE e.op = "algebra" -> VAlg(e)
      [] e.op = "trimcols" -> VTrim(e)
      [] e.op = "string" -> VStr(e)
      [] e.op = "chebval" -> VCheb(e)
      [] e.op = "chebder" -> VDer(e)
      [] e.op = "chebint" -> VInt(e)
      [] e.op = "chebfit" -> VFit(e)
      [] e.op = "chebval2" -> VVal2(e)
      [] e.op = "chebfit2" -> VSame2(e)
      [] e.op = "ortho" -> VOrtho(e)
      [] e.op = "padefit" -> VPade(e)
      [] e.op = "padefitlsq" -> VRat(e)
      [] e.op = "chebpoly" -> IF e.r.kind # "reals" THEN {"returns-coefficients"} ELSE If(SameCoef(e.r.v, ChebPow(e.n, e.kind)), "chebyshev-polynomial")
      [] e.op = "chebroot" -> IF e.r.kind # "reals" THEN {"returns-nodes"}
             ELSE If(Len(e.r.v) = e.n /\ \A i \in 1..e.n : HClose(ChebSeq(e.n, e.r.v[i], e.kind)[e.n + 1], "0", HMul("1e-11", HReal(e.n * e.n)), "0")
                     /\ (i > 1 => HLt(e.r.v[i - 1], e.r.v[i])) /\ HLt(HAbs(e.r.v[i]), "1"), "roots")
      [] e.op = "chebextr" -> IF e.r.kind # "reals" THEN {"returns-nodes"}
             ELSE If(Len(e.r.v) = e.n + 1 /\ \A i \in 1..(e.n + 1) : HClose(HAbs(ChebSeq(e.n, e.r.v[i], 1)[e.n + 1]), "1", "1e-10", "0")
                     /\ (i > 1 => HLt(e.r.v[i - 1], e.r.v[i])), "extrema")
      [] e.op = "interval" -> IF e.r.kind # "reals" THEN {"returns-values"}
             ELSE If(\A i \in 1..Len(e.x) : HClose(e.r.v[i], IF e.f = "from" THEN MapFrom(e.x[i], e.a, e.b) ELSE MapTo(e.x[i], e.a, e.b), "1e-12", "1e-11"), "linear-map")
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
