--------------------------- MODULE SpecDataTrace ----------------------------
EXTENDS SpecData, Stineman
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
IsV(r, n) == r.kind = "reals" /\ Len(r.v) = n
\* 1-D moments
VMoment(e) ==
    LET w == AngF(e.x, e.ft)  s == AngS(e.s, e.ft)  wt == Simpson(w)
        ks == IF e.even THEN [i \in 1..(1 + e.nr \div 2) |-> 2 * i - 2] ELSE [i \in 1..(1 + e.nr) |-> i - 1]
    IN  IF ~IsV(e.r, Len(ks)) THEN {"returns-moments"}
        ELSE If(\A i \in 1..Len(ks) : HClose(e.r.v[i], Mom(w, s, wt, ks[i], e.j + 1), HMul("1e-10", MomAbs(w, s, wt, ks[i], e.j + 1)), "0"), "moment")
             \cup If(e.orders = ks /\ e.prefix, "names")
CloseN(v, w, tol) == IF w = "nan" THEN v = "nan" ELSE v # "nan" /\ HIsFinite(v) /\ HClose(v, w, "0", tol)
CloseA(v, w, big) == IF w = "nan" THEN v = "nan" ELSE v # "nan" /\ HIsFinite(v) /\ HClose(v, w, HMul("1e-9", HAbs(big)), "1e-9")
VChar(e) ==
    LET w == AngF(e.x, e.ft)  s == AngS(e.s, e.ft)  h == HzMoments(w, s, e.T)  n == Len(e.f)
        Tol(nm) == "1e-7"
        safe == HLt("1e-3", Char("Eps2", w, s, h, e.g)) /\ HLt("1e-3", Char("Eps4", w, s, h, e.g))
        Skip(nm) == ~safe /\ nm \in {"Eps2", "Eps4"}
    IN  IF ~IsV(e.r, n) THEN {"returns-values"}
        ELSE If(e.names = [i \in 1..n |-> Names[e.f[i] + 1]], "names")
             \cup If(\A i \in 1..n : Skip(Names[e.f[i] + 1]) \/ CloseN(e.r.v[i], Char(Names[e.f[i] + 1], w, s, h, e.g), Tol(0)), "characteristic")
             \cup If(Len(e.cov) = n /\ \A i \in 1..n : Len(e.cov[i]) = n, "covariance-shape")
             \cup If(\A i \in 1..n : Skip(Names[e.f[i] + 1]) \/ CloseA(e.cov[i][i], Var(Names[e.f[i] + 1], h, e.g, FALSE), Var(Names[e.f[i] + 1], h, e.g, TRUE)), "variance")
             \cup If(\A i, j \in 1..n : e.cov[i][j] = e.cov[j][i], "symmetric")
             \cup If(\A i, j \in 1..n : ({e.f[i], e.f[j]} = {1, 2}) => CloseA(e.cov[i][j], Cov("Tm01", "Tm02", w, s, h, e.g, FALSE), Cov("Tm01", "Tm02", w, s, h, e.g, TRUE)), "covariance")
             \cup (LET H1 == Cov("Hm0", "Tm01", w, s, h, e.g, FALSE)  H2 == Cov("Hm0", "Tm02", w, s, h, e.g, FALSE)
                       A1 == Cov("Hm0", "Tm01", w, s, h, e.g, TRUE)  A2 == Cov("Hm0", "Tm02", w, s, h, e.g, TRUE)
                       Is(i, j, k) == {e.f[i], e.f[j]} = {0, k}
                       right == \A i, j \in 1..n : /\ Is(i, j, 1) => CloseA(e.cov[i][j], H1, A1)
                                                   /\ Is(i, j, 2) => CloseA(e.cov[i][j], H2, A2)
                                                   /\ Is(i, j, 3) => e.cov[i][j] = "nan"
                       shift == \A i, j \in 1..n : /\ Is(i, j, 1) => e.cov[i][j] = "nan"
                                                   /\ Is(i, j, 2) => CloseA(e.cov[i][j], H1, A1)
                                                   /\ Is(i, j, 3) => CloseA(e.cov[i][j], H2, A2)
                   IN  IF right THEN {} ELSE IF shift THEN {"covariance-shifted"} ELSE {"covariance-with-Hm0"})
VBand(e) ==
    LET w == AngF(e.x, e.ft)  s == AngS(e.s, e.ft)  h == HzMoments(w, s, "1")
        Nm == <<"Alpha", "Eps2", "Eps4", "Qp">>
    IN  IF ~IsV(e.r, Len(e.f)) THEN {"returns-values"}
        ELSE If(\A i \in 1..Len(e.f) : LET v == Char(Nm[e.f[i] + 1], w, s, h, "1") IN
                 (e.f[i] \in {1, 2} /\ HLt(v, "1e-3")) \/ CloseN(e.r.v[i], v, "1e-7"), "bandwidth")
VNorm(e) ==   \* e.x, e.s before; e.x2, e.s2 after, e.A
    LET w == AngF(e.x, e.ft)  s == AngS(e.s, e.ft)  wt == Simpson(w)
        w2 == AngF(e.x2, e.ft)  s2 == AngS(e.s2, e.ft)  wt2 == Simpson(w2)
        m0 == Mom(w, s, wt, 0, 1)  m2 == Mom(w, s, wt, 2, 1)  m4 == Mom(w, s, wt, 4, 1)
        A == HSqrt(HDiv(m0, m2))
    IN  If(HAllClose(w2, [i \in 1..Len(w) |-> HMul(A, w[i])], "0", "1e-9") /\ HAllClose(s2, [i \in 1..Len(s) |-> HDiv(s[i], HMul(A, m0))], "0", "1e-9"), "scaled")
        \cup If(HClose(Mom(w2, s2, wt2, 0, 1), "1", "0", "1e-8") /\ HClose(Mom(w2, s2, wt2, 2, 1), "1", "0", "1e-8"), "unit-moments")
        \cup If(HClose(e.A, A, "0", "1e-9"), "scale-factor")
        \cup If(e.grav = "none" \/ HClose(e.grav, HDiv(HSqrt(HMul(m0, m4)), m2), "0", "1e-9"), "gravity")
VResample(e) ==
    IF e.r.kind # "pairs" THEN {"returns-spectrum"}
    ELSE LET x == e.r.x  v == e.r.s  n == Len(x)  wn == HDiv(IF e.ft = "f" THEN "0.5" ELSE HPi, e.dt)
             p == Padded(e.x, e.s, wn)  np == Len(p.w)  yp == StSlopes(p.w, p.s)
             Seg(t) == {i \in 1..(np - 1) : HLe(HSub(p.w[i], "1e-12"), t) /\ HLe(t, HAdd(p.w[i + 1], "1e-12"))}
             mx == p.s[CHOOSE i \in 1..np : \A j \in 1..np : HLe(p.s[j], p.s[i])]
         IN  If(n >= 2 /\ \E k \in 0..16 : n = 2^k + 1, "power-of-two-plus-one")
             \cup If(n >= e.nmin, "at-least-as-fine")
             \cup If(\A i \in 1..n : HClose(x[i], HDiv(HMul(wn, HReal(i - 1)), HReal(n - 1)), HMul("1e-10", wn), "0"), "equidistant-to-nyquist")
             \cup If(\A i \in 1..n : HLe("0", v[i]), "nonnegative")
             \cup If(\A i \in 1..n :
                   IF HLt(HAdd(p.w[np], "1e-12"), x[i]) THEN FALSE
                   ELSE IF e.method = "linear" THEN \E k \in Seg(x[i]) : HClose(v[i], HAdd(p.s[k], HMul(HSub(p.s[k + 1], p.s[k]), HDiv(HSub(x[i], p.w[k]), HSub(p.w[k + 1], p.w[k])))), HMul("1e-9", mx), "0")
                   ELSE \E k \in Seg(x[i]) : HClose(v[i], HMax("0", StVal(p.w, p.s, yp, k, x[i])), HMul("1e-8", mx), "0"), "interpolates")
VMoment2(e) ==  \* e.names: exponents <<a, b, c>> of each name returned; e.vars subset of {"x","y","t"}
    LET th == [j \in 1..Len(e.th) |-> HSub(e.th[j], e.phi)]  wt == Simpson(e.w)  tt == Simpson(th)
        M(a, b, c) == Mom2(e.w, th, e.d, wt, tt, a, b, c, e.gx, e.gy)
        V(q) == M(q[1], q[2], q[3])
        Degs == IF e.nr = 0 THEN {0} ELSE IF e.nr = 1 THEN {0, 1} ELSE IF e.nr < 4 THEN {0, 1, 2} ELSE {0, 1, 2, 4}
        has(v) == \E i \in 1..Len(e.vars) : e.vars[i] = v
        all == {q \in (0..4) \X (0..4) \X (0..4) : q[1] + q[2] + q[3] \in Degs /\ (q[1] > 0 => has("x")) /\ (q[2] > 0 => has("y")) /\ (q[3] > 0 => has("t"))}
        big(q) == HSum([i \in 1..Len(e.w) |-> HMul(HAbs(wt[i]), HMul(HMul(HPow(HDiv(HMul(e.w[i], e.w[i]), e.gx), q[1]), HPow(HDiv(HMul(e.w[i], e.w[i]), e.gy), q[2])),
                    HMul(HPow(e.w[i], q[3]), HSum([j \in 1..Len(th) |-> HMul(HAbs(tt[j]), HAbs(e.d[j][i]))])))) ])
        Ok(i) == LET q == e.names[i] IN HClose(e.r.v[i], V(q), HMul("1e-10", big(q)), "0")
        myt == {i \in 1..Len(e.names) : e.names[i] = <<0, 1, 1>>}
        Known(i) == i \in myt /\ HClose(e.r.v[i], HDiv(HMul(M(1, 0, 1), e.gx), e.gy), HMul("1e-10", big(e.names[i])), "0")
    IN  IF e.r.kind # "reals" \/ Len(e.names) # Len(e.r.v) THEN {"returns-moments"}
        ELSE If({e.names[i] : i \in 1..Len(e.names)} = all /\ Cardinality(all) = Len(e.names), "all-moments-once")
             \cup If(\A i \in 1..Len(e.names) : Ok(i) \/ Known(i), "moment")
             \cup If(\A i \in myt : Ok(i) \/ ~Known(i), "myt-is-mxt")
VQtf(e) ==
    IF e.hs.kind # "matrix" \/ e.hd.kind # "matrix" THEN {"returns-matrices"}
    ELSE LET n == Len(e.w) IN
         If(Len(e.hs.v) = n /\ \A i, j \in 1..n : HClose(e.hs.v[i][j], QS(e.w[i], e.w[j], e.g), "0", "1e-9"), "sum-frequency")
         \cup If(Len(e.hd.v) = n /\ \A i, j \in 1..n : HClose(e.hd.v[i][j], QD(e.w[i], e.w[j], e.g), HMul("1e-12", QS(e.w[i], e.w[j], e.g)), "1e-9"), "difference-frequency")
         \cup If(IsV(e.hdii, n) /\ \A i \in 1..n : HEq(e.hdii.v[i], "0"), "diagonal")
VStats(e) ==
    LET w == AngF(e.x, e.ft)  s == AngS(e.s, e.ft)  wt == Simpson(w)  tr == Trapz(w)  n == Len(w)
        m0 == Mom(w, s, wt, 0, 1)
        hs == HSum([i \in 1..n |-> HMul(HMul(tr[i], s[i]), HSum([j \in 1..n |-> HMul(HMul(tr[j], s[j]), HAdd(QS(w[i], w[j], e.g), QD(w[i], w[j], e.g)))]))])
        sk == HDiv(HMul("6", hs), HMul(m0, HSqrt(m0)))
        all == <<"0", m0, sk, HAdd("3", HPow(HDiv(HMul("4", sk), "3"), 2))>>
    IN  IF ~IsV(e.r, Len(e.mom)) THEN {"returns-moments"}
        ELSE If(\A i \in 1..Len(e.mom) : HClose(e.r.v[i], all[e.mom[i]], "1e-12", "1e-8"), "second-order-statistics")
Verdict(s, e) ==
    CASE e.op = "moment" -> VMoment(e)
      [] e.op = "char" -> VChar(e)
      [] e.op = "bandwidth" -> VBand(e)
      [] e.op = "normalize" -> VNorm(e)
      [] e.op = "resample" -> VResample(e)
      [] e.op = "moment2" -> VMoment2(e)
      [] e.op = "qtf" -> VQtf(e)
      [] e.op = "stats" -> VStats(e)
      [] e.op = "period" -> If(HClose(e.r, HDiv(IF e.ft = "f" THEN "0.5" ELSE HPi, e.x[Len(e.x)]), "0", "1e-12") /\ e.ny = e.x[Len(e.x)], "sampling-period")
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
