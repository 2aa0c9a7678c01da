----------------------------- MODULE FilterTrace ----------------------------
EXTENDS Filters
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
SumAbs(y) == HAdd("1e-300", HSum([i \in 1..Len(y) |-> HAbs(y[i])]))
VSavGol(e) ==
    LET v == SavGol(e.y, e.n, e.deg, e.d, e.delta, e.mode, e.cval)
        b == HDiv(HAdd(SumAbs(e.y), HAbs(e.cval)), HPow(e.delta, e.d))
    IN  IF e.kind # "ok" THEN {"filters"} ELSE If(Len(e.r) = Len(v) /\ \A i \in 1..Len(v) : HClose(e.r[i], v[i], HMul("1e-8", b), "0"), "local-polynomial")
VLast(e) ==
    LET N == Len(e.y)  c == Fit(SubSeq(e.y, N - e.k - e.n, N - e.k + e.n), e.n, e.deg)
    IN  IF e.kind # "ok" THEN {"filters"} ELSE If(Len(e.r) = 1 /\ HClose(e.r[1], Deriv(c, e.d, 0, e.delta), HDiv(HMul("1e-8", SumAbs(e.y)), HPow(e.delta, e.d)), "0"), "local-polynomial")
VSmooth(e) ==
    LET W == Weights(e.y, e.w)
        z0 == SmoothV(e.y, W, e.s)
        R1 == Robust(e.y, z0, e.s, e.wk)
        W1 == [i \in 1..Len(W) |-> HMul(W[i], R1[i])]
        z1 == TLCEval(SmoothV(e.y, W1, e.s))
        R2 == Robust(e.y, z1, e.s, e.wk)
        W2 == [i \in 1..Len(W) |-> HMul(W[i], R2[i])]
        z2 == TLCEval(SmoothV(e.y, W2, e.s))
        c == [k \in 1..Len(e.y) |-> HSum([n \in 1..Len(e.y) |-> HMul(Orth2(k - 1, n - 1, Len(e.y)), e.y[n])])]
        rank == Cardinality({a \in 1..Len(e.sh) : e.sh[a] # 1})
    IN  IF e.kind # "ok" THEN {"filters"}
        ELSE If(e.rsh = e.sh, "shape")
             \cup (IF e.robust THEN If(Len(e.r) = Len(z2) /\ \A i \in 1..Len(z2) : HClose(e.r[i], z2[i], HMul("1e-6", SumAbs(Known(e.y))), "0"), "robust-smoothing")
                   ELSE If(Len(e.r) = Len(e.y) /\ Solves(e.r, e.y, W, e.s, e.sh, "1e-8"), "penalized-least-squares"))
             \cup (IF e.auto THEN If(HLe(HMul("0.999", SMin(rank)), e.s) /\ HLe(e.s, HMul("1.001", SMax(rank))), "parameter-within-limits")
                                  \cup If(Len(e.sh) > 1 \/ e.weighted \/
                                             \A q \in {"0.3", "3"} : LET t == HMul(e.s, q) IN HLt(t, SMin(1)) \/ HLt(SMax(1), t) \/ HLe(Gcv(c, e.s), HMul("1.01", Gcv(c, t))) \/ HLe(Gcv(c, e.s), HMul("1e-14", HPow(SumAbs(e.y), 2))), "cross-validation")
                   ELSE {})
VHP(e) ==
    LET n == Len(e.y)  v == SecondT(Second(e.r), n)
    IN  IF e.kind # "ok" THEN {"filters"}
        ELSE IF n < 4 THEN If(e.r = e.y, "short")
        ELSE If(Len(e.r) = n /\ \A i \in 1..n : HClose(HAdd(e.r[i], HMul(e.w, v[i])), e.y[i], HMul(HMul("1e-9", SumAbs(e.y)), HAdd("1", e.w)), "0"), "minimizes-penalized-sum")
\* Kalman: st holds the filter
Zeros(n, m) == [i \in 1..n |-> [j \in 1..m |-> "0"]]
Eye(n) == [i \in 1..n |-> Unit(i, n)]
KInv(H) == LET n == Len(H)  c == TLCEval([j \in 1..n |-> HSolve(H, Unit(j, n))]) IN Tr(c)       \* columns solved one by one
KNew(e) == [A |-> IF e.hasA THEN e.A ELSE Eye(e.n), B |-> e.B, Q |-> IF e.hasQ THEN e.Q ELSE Zeros(e.n, e.n), H |-> IF e.hasH THEN e.H ELSE Eye(e.n), R |-> e.R,
            x |-> e.x, P |-> IF e.hasP THEN e.P ELSE LET HI == KInv(IF e.hasH THEN e.H ELSE Eye(e.n)) IN MM(MM(HI, e.R), Tr(HI)), first |-> ~e.hasx]
KCall(s, e) == IF s.first THEN [s EXCEPT !.x = MV(KInv(s.H), e.z), !.first = FALSE] ELSE KStep(s, e.z, e.u)
VKal(s, e) ==
    LET k == KCall(s, e)  flat == [q \in 1..Len(k.P) * Len(k.P) |-> k.P[((q - 1) \div Len(k.P)) + 1][((q - 1) % Len(k.P)) + 1]]
    IN  IF e.kind # "ok" THEN {"filters"}
        ELSE If(Len(e.rx) = Len(k.x) /\ HAllClose(e.rx, k.x, "1e-9", "1e-9") /\ e.ret = e.rx, "state") \cup If(Len(e.rP) = Len(flat) /\ HAllClose(e.rP, flat, "1e-9", "1e-9"), "covariance")
VHampel(e) ==
    LET n == Len(e.y)  X == e.x
        med == Median([i \in 1..n - 1 |-> HSub(X[i + 1], X[i])])
        dx == IF e.hasdx THEN e.dx ELSE HMul("3", med)
        loc == TLCEval([i \in 1..n |-> IF e.adaptive THEN Adapt(X, e.y, dx, i, e.lim) ELSE Local(X, e.y, dx, i)])
        D == HMul("2", med)
        Y0 == IF e.adaptive THEN SmG(X, [i \in 1..n |-> loc[i][1]], D) ELSE [i \in 1..n |-> loc[i][1]]
        S0 == IF e.adaptive THEN SmG(X, [i \in 1..n |-> loc[i][2]], D) ELSE [i \in 1..n |-> loc[i][2]]
        tol == HMul("1e-9", SumAbs(e.y))
        Near(a, b) == HClose(a, b, tol, "0")
    IN  IF e.kind # "ok" THEN {"filters"}
        ELSE IF \E s \in {e.r, e.Y0, e.LB, e.UB, e.out} : Len(s) # n THEN {"length"}
        ELSE If(\A i \in 1..n : Near(e.Y0[i], Y0[i]), "nominal")
             \cup If(\A i \in 1..n : Near(e.LB[i], HSub(Y0[i], HMul(e.t, S0[i]))) /\ Near(e.UB[i], HAdd(Y0[i], HMul(e.t, S0[i]))), "bounds")
             \cup If(\A i \in 1..n : LET a == HAbs(HSub(e.y[i], Y0[i]))  b == HMul(e.t, S0[i]) IN HClose(a, b, tol, "0") \/ e.out[i] = (IF HLt(b, a) THEN "1.0" ELSE "0.0"), "outliers")
             \cup If(\A i \in 1..n : IF e.out[i] = "1.0" THEN HEq(e.r[i], e.Y0[i]) ELSE HEq(e.r[i], e.y[i]), "replaced-by-nominal")
             \cup If(~e.adaptive \/ LET A == SmG(X, [i \in 1..n |-> loc[i][3]], D) IN \A i \in 1..n : HClose(e.adx[i], A[i], "1e-9", "1e-9"), "window-size")
\* a history of assignments and calls
KSet(s, e) == CASE e.what = "A" -> [s EXCEPT !.A = e.v] [] e.what = "Q" -> [s EXCEPT !.Q = e.v] [] e.what = "H" -> [s EXCEPT !.H = e.v] [] e.what = "R" -> [s EXCEPT !.R = e.v]
RECURSIVE KRun(_, _, _)
KRun(s, h, i) ==
    IF i > Len(h) THEN {}
    ELSE IF h[i].op = "set" THEN KRun(TLCEval(KSet(s, h[i])), h, i + 1)
    ELSE LET v == VKal(s, h[i]) IN IF v # {} THEN v ELSE KRun(TLCEval(KCall(s, h[i])), h, i + 1)
Verdict(s, e) ==
    CASE e.op = "savgol" -> VSavGol(e) [] e.op = "last" -> VLast(e) [] e.op = "smooth" -> VSmooth(e) [] e.op = "hp" -> VHP(e)
      [] e.op = "kalman" -> KRun(TLCEval(KNew(e)), e.steps, 1)
      [] e.op = "hampel" -> VHampel(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
