----------------------------- MODULE PaduaTrace -----------------------------
EXTENDS Padua
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
Abs1(s) == HAdd("1e-300", HSum([i \in 1..Len(s) |-> HAbs(s[i])]))
VPoints(e) ==
    LET L == Lattice(e.n)
        Sx == HAdd(HAbs(e.a), HAbs(e.b))  Sy == HAdd(HAbs(e.c), HAbs(e.d))
        W == TLCEval([p \in L |-> LET v == PointOf(p, e.n) IN <<To(v[1], e.a, e.b), To(v[2], e.c, e.d)>>])
        Is(p, q) == HClose(e.x[q], W[p][1], HMul("1e-13", Sx), "0") /\ HClose(e.y[q], W[p][2], HMul("1e-13", Sy), "0")
    IN  IF e.kind # "ok" THEN {"returns-points"}
        ELSE If(Len(e.x) = ((e.n + 1) * (e.n + 2)) \div 2 /\ Len(e.y) = Len(e.x), "number") \cup If(\A p \in L : \E q \in 1..Len(e.x) : Is(p, q), "padua-points")
\* C: the coefficient matrix the code returned; f: the values of the function in the points x, y
VFit(e) ==
    LET n == e.n
        u == TLCEval([q \in 1..Len(e.x) |-> From(e.x[q], e.a, e.b)])  v == TLCEval([q \in 1..Len(e.y) |-> From(e.y[q], e.c, e.d)])
        P == Pairs(n)  c == TLCEval(IF n <= 5 THEN Coefs(n, u, v, e.f) ELSE <<>>)
        t == HMul("1e-10", Abs1(e.f))
    IN  IF e.kind # "ok" THEN {"fits"}
        ELSE IF Len(e.C) # n + 1 \/ \E i \in 1..Len(e.C) : Len(e.C[i]) # n + 1 THEN {"shape"}
        ELSE If(IF n <= 5 THEN \A m \in 1..Len(P) : HClose(e.C[P[m][1] + 1][P[m][2] + 1], c[m], t, "0")
                ELSE \A q \in 1..Len(e.f) : HClose(Value(e.C, u[q], v[q]), e.f[q], HMul("10", t), "0"), "interpolates")
             \cup If(\A i \in 1..n + 1, j \in 1..n + 1 : i + j - 2 > n => HClose(e.C[i][j], "0", t, "0"), "degree")
             \cup If(HClose(e.err, ErrorEstimate(e.C), t, "1e-10"), "error-estimate")
VVal(e) ==
    LET t == HMul("1e-10", HSum([i \in 1..Len(e.C) |-> Abs1(e.C[i])]))
        X(q) == From(e.x[q], e.a, e.b)  Y(q) == From(e.y[q], e.c, e.d)
    IN  IF e.kind # "ok" THEN {"evaluates"}
        ELSE IF e.rsh # (IF e.mesh THEN <<Len(e.y), Len(e.x)>> ELSE e.sh) THEN {"shape"}
        ELSE IF e.mesh THEN If(\A p \in 1..Len(e.x), q \in 1..Len(e.y) : HClose(e.r[(q - 1) * Len(e.x) + p], Value(e.C, X(p), Y(q)), t, "0"), "value")
        ELSE If(\A q \in 1..Len(e.x) : HClose(e.r[q], Value(e.C, X(q), Y(q)), t, "0"), "value")
VCub(e) ==
    LET A == HDiv(HMul(HSub(e.b, e.a), HSub(e.d, e.c)), "4")
    IN  IF e.kind # "ok" THEN {"integrates"} ELSE If(HClose(e.r, HMul(A, Integral(e.C)), HMul("1e-11", HMul(A, HSum([i \in 1..Len(e.C) |-> Abs1(e.C[i])]))), "0"), "cubature")
Verdict(s, e) == CASE e.op = "points" -> VPoints(e) [] e.op = "fit" -> VFit(e) [] e.op = "val" -> VVal(e) [] e.op = "cubature" -> VCub(e) [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
