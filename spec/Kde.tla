-------------------------------- MODULE Kde ---------------------------------
(* Kernel functions, kernel density estimates, kernel regression and the     *)
(* bandwidth rules, by definition.                                           *)
EXTENDS Grid, LinAlg
Half == "0.5"
Order(s) == SortSeq(s, LAMBDA a, b : HLt(a, b))
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
\* volume of the unit ball
Ball(d) == CASE d = 1 -> "2" [] d = 2 -> HPi [] d = 3 -> HDiv(HMul("4", HPi), "3")
             [] d = 4 -> HDiv(HMul(HPi, HPi), "2") [] d = 5 -> HDiv(HMul("8", HMul(HPi, HPi)), "15")
             [] d = 6 -> HDiv(HPow(HPi, 3), "6")
Exponent(k) == CASE k \in {"epan", "p1ep"} -> 1 [] k \in {"biwe", "p1bi"} -> 2 [] k \in {"triw", "p1tr"} -> 3
Norm1(p) == HDiv(HReal((2 * Fact(p)) * Ipow(2, p)), HReal(CASE p = 1 -> 3 [] p = 2 -> 15 [] p = 3 -> 105))
\* value of the kernel in u divided by its integral is a density
KVal(k, u) ==
    LET d == Len(u)
        pos(a) == HMax("0", a)
        sq == [i \in 1..d |-> HMul(u[i], u[i])]
    IN  CASE k = "gaus" -> HExp(HMul("-0.5", HSum(sq)))
          [] k \in {"epan", "biwe", "triw"} -> HPow(pos(HSub("1", HSum(sq))), Exponent(k))
          [] k \in {"p1ep", "p1bi", "p1tr"} -> HProd([i \in 1..d |-> HPow(pos(HSub("1", sq[i])), Exponent(k))])
          [] k = "rect" -> IF \A i \in 1..d : HLe(HAbs(u[i]), "1") THEN "1" ELSE "0"
          [] k = "tria" -> HProd([i \in 1..d |-> pos(HSub("1", HAbs(u[i])))])
          [] k = "lapl" -> HExp(HNeg(HSum([i \in 1..d |-> HAbs(u[i])])))
          [] k = "logi" -> HProd([i \in 1..d |-> LET s == HExp(HNeg(HAbs(u[i]))) IN HDiv(s, HPow(HAdd("1", s), 2))])
KNorm(k, d) ==
    CASE k = "gaus" -> HPow(HSqrt(HMul("2", HPi)), d)
      [] k = "epan" -> HDiv(HMul("2", Ball(d)), HReal(d + 2))
      [] k = "biwe" -> HDiv(HMul("8", Ball(d)), HReal((d + 2) * (d + 4)))
      [] k = "triw" -> HDiv(HMul("48", Ball(d)), HReal((d + 2) * ((d + 4) * (d + 6))))
      [] k \in {"p1ep", "p1bi", "p1tr"} -> HPow(Norm1(Exponent(k)), d)
      [] k \in {"rect", "lapl"} -> HPow("2", d)
      [] k \in {"tria", "logi"} -> "1"
\* second moment and roughness of the one-dimensional kernels
Mu2(k) == CASE k \in {"epan", "p1ep"} -> HFrac(1, 5) [] k \in {"biwe", "p1bi"} -> HFrac(1, 7)
            [] k \in {"triw", "p1tr"} -> HFrac(1, 9) [] k = "rect" -> HFrac(1, 3) [] k = "tria" -> HFrac(1, 6)
            [] k = "lapl" -> "2" [] k = "logi" -> HDiv(HMul(HPi, HPi), "3") [] k = "gaus" -> "1"
Rough(k) == CASE k \in {"epan", "p1ep"} -> HFrac(3, 5) [] k \in {"biwe", "p1bi"} -> HFrac(5, 7)
              [] k \in {"triw", "p1tr"} -> HFrac(350, 429) [] k = "rect" -> Half [] k = "tria" -> HFrac(2, 3)
              [] k = "lapl" -> HFrac(1, 4) [] k = "logi" -> HFrac(1, 6) [] k = "gaus" -> HDiv(Half, HSqrt(HPi))
\* ---- estimates.  o : [data (d x n), H (d x d), k, lam (n)] ------------------
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE HSum([j \in 1..Len(A) |-> HMul(HMul(IF j % 2 = 1 THEN "1" ELSE "-1", A[1][j]),
                 Det([i \in 1..(Len(A) - 1) |-> [c \in 1..(Len(A) - 1) |-> A[i + 1][IF c < j THEN c ELSE c + 1]]]))])
Inv(A) == LET n == Len(A) IN Transp([j \in 1..n |-> Solve(A, [i \in 1..n |-> IF i = j THEN "1" ELSE "0"])])
PowR(dx, r) == IF r = 0 THEN "1" ELSE HSum([k \in 1..Len(dx) |-> HPow(dx[k], r)])
\* sum_i y_i (sum_k dx_k^r) K(H^-1 (x - x_i) / lam_i) / lam_i^d / (n |H| norm)
Est(o, x, y, r) ==
    LET d == Len(x)  n == Len(o.data[1])
        s == HSum([i \in 1..n |->
               LET dx == TLCEval([k \in 1..d |-> HSub(x[k], o.data[k][i])])
                   u == TLCEval([a \in 1..d |-> HDiv(HDot(o.Hi[a], dx), o.lam[i])])
               IN  HDiv(HMul(HMul(y[i], PowR(dx, r)), KVal(o.k, u)), HPow(o.lam[i], d))])
    IN  HDiv(s, HMul(HMul(HReal(n), o.det), KNorm(o.k, d)))
Ones(n) == [i \in 1..n |-> "1"]
PointsOf(data) == TLCEval([i \in 1..Len(data[1]) |-> [k \in 1..Len(data) |-> data[k][i]]])
Object(data, H, k, alpha) ==
    LET o1 == TLCEval([data |-> data, H |-> H, Hi |-> Inv(H), det |-> Det(H), k |-> k, lam |-> Ones(Len(data[1])), alpha |-> alpha])
    IN  IF HLe(alpha, "0") THEN o1
        ELSE LET ps == PointsOf(data)
                 f == TLCEval([i \in 1..Len(ps) |-> Est(o1, ps[i], Ones(Len(ps)), 0)])
                 lg == TLCEval([i \in 1..Len(ps) |-> HLog(f[i])])
                 m == HMean(lg)
             IN  [o1 EXCEPT !.lam = TLCEval([i \in 1..Len(ps) |-> HExp(HMul(HNeg(alpha), HSub(lg[i], m)))])]
\* ---- binned estimate on a grid X (d x inc) --------------------------------
\* the discrete kernel mass decides which normalization is used
Offsets(X) == LET inc == Len(X[1])  d == Len(X)
              IN  {<<p>> : p \in (-inc)..(inc - 1)}
Fast1(o, X, y, r) ==   \* one dimension
    LET g == X[1]  inc == Len(g)  dx == HSub(g[2], g[1])  n == Len(o.data[1])
        c == Counts(o.data, X, y)
        off(m) == HMul(HReal(m - inc - 1), dx)
        kw == TLCEval([m \in 1..(2 * inc) |-> KVal(o.k, <<HMul(o.Hi[1][1], off(m))>>)])
        n0 == HMul(HMul(HSum(kw), dx), HReal(n))
        n1 == HMul(HMul(HReal(n), o.det), KNorm(o.k, 1))
        dev == HSub(HAbs(HSub(n0, n1)), HMul("0.05", n1))
        w == TLCEval([m \in 1..(2 * inc) |-> HMul(kw[m], IF r = 0 THEN "1" ELSE HPow(off(m), r))])
        z == TLCEval([j \in 1..inc |-> HSum([i \in 1..inc |-> HMul(c[i], w[inc + 1 + (j - i)])])])
    IN  [z |-> z, n |-> IF HLt("0", dev) THEN n0 ELSE n1, sharp |-> HLt(HMul("1e-6", n1), HAbs(dev))]
Fast2(o, X) ==         \* two dimensions, diagonal or full bandwidth; result row by row, second dimension first
    LET inc == Len(X[1])  dx == [k \in 1..2 |-> HSub(X[k][2], X[k][1])]  n == Len(o.data[1])
        c == Counts(o.data, X, Ones(n))
        off(a, k) == HMul(HReal(a), dx[k])
        W == TLCEval([a \in (-inc)..(inc - 1) |-> [b \in (-inc)..(inc - 1) |->   \* a : first dimension, b : second
               LET v == <<off(a, 1), off(b, 2)>> IN KVal(o.k, <<HDot(o.Hi[1], v), HDot(o.Hi[2], v)>>)]])
        n0 == HMul(HMul(HSum([a \in 1..(2 * inc) |-> HSum([b \in 1..(2 * inc) |-> W[a - inc - 1][b - inc - 1]])]), HMul(dx[1], dx[2])), HReal(n))
        n1 == HMul(HMul(HReal(n), o.det), KNorm(o.k, 2))
        dev == HSub(HAbs(HSub(n0, n1)), HMul("0.05", n1))
        z == TLCEval([p \in 1..(inc * inc) |-> LET q == Decode(p, 2, inc) IN
               HSum([s \in 1..(inc * inc) |-> LET t == Decode(s, 2, inc) IN HMul(c[s], W[q[1] - t[1]][q[2] - t[2]])])])
    IN  [z |-> z, n |-> IF HLt("0", dev) THEN n0 ELSE n1, sharp |-> HLt(HMul("1e-6", n1), HAbs(dev))]
\* ---- bandwidth rules ------------------------------------------------------
Var(s) == LET m == HMean(s) IN HDiv(HSum([i \in 1..Len(s) |-> HPow(HSub(s[i], m), 2)]), HReal(Len(s) - 1))
\* p quartiles of four, linear interpolation between order statistics
Quart(s, p) ==
    LET z == Order(s)  n == Len(s)  num == p * (n - 1)  k == num \div 4
    IN  IF k + 2 > n THEN z[n] ELSE HAdd(z[k + 1], HMul(HFrac(num % 4, 4), HSub(z[k + 2], z[k + 1])))
Iqr(s) == HSub(Quart(s, 3), Quart(s, 1))
Scale(s) == LET q == Iqr(s)  sd == HSqrt(Var(s)) IN IF HLt("0", q) THEN HMin(sd, HDiv(q, "1.349")) ELSE sd
Amise(k, n) == HRPow(HDiv(HMul(HMul("8", HSqrt(HPi)), Rough(k)), HMul(HMul("3", HPow(Mu2(k), 2)), HReal(n))), "0.2")
SteC(k, n) == HDiv(Rough(k), HMul(HReal(n), HPow(Mu2(k), 2)))
Hns(k, s) == HMul(Scale(s), Amise(k, Len(s)))
\* r-th derivative of the normal density, r even: Hermite polynomial times density
Herm(r, t) == LET t2 == HMul(t, t) IN
    CASE r = 4 -> HAdd("3", HMul(t2, HAdd("-6", t2)))
      [] r = 6 -> HAdd("-15", HMul(t2, HAdd("45", HMul(t2, HAdd("-15", t2)))))
      [] r = 8 -> HAdd("105", HMul(t2, HAdd("-420", HMul(t2, HAdd("210", HMul(t2, HAdd("-28", t2)))))))
      [] r = 10 -> HAdd("-945", HMul(t2, HAdd("4725", HMul(t2, HAdd("-3150", HMul(t2, HAdd("630", HMul(t2, HAdd("-45", t2)))))))))
Phi0(t) == HDiv(HExp(HMul("-0.5", HMul(t, t))), HSqrt(HMul("2", HPi)))
PhiR(r, t) == HMul(Herm(r, t), Phi0(t))
\* the functional psi_r for a normal density with standard deviation s
PsiN(r, s) == HDiv(HMul(IF (r \div 2) % 2 = 0 THEN "1" ELSE "-1", HReal(Fact(r) \div Fact(r \div 2))),
                   HMul(HSqrt(HPi), HPow(HMul("2", s), r + 1)))
\* the functional estimated from binned data with lag correlations A[1..inc] and spacing dx
LagCorr(c) == LET n == Len(c) IN TLCEval([m \in 1..n |-> HSum([i \in 1..(n - m + 1) |-> HMul(c[i], c[i + m - 1])])])
PsiB(A, dx, g, n, r) ==
    HDiv(HSum([m \in 1..Len(A) |-> HMul(HMul(IF m = 1 THEN "1" ELSE "2", A[m]), PhiR(r, HDiv(HMul(HReal(m - 1), dx), g)))]),
         HMul(HPow(HReal(n), 2), HPow(g, r + 1)))
GOf(k0, psi, n, r) == HRPow(HDiv(HMul("-2", k0), HMul(psi, HReal(n))), HFrac(1, r + 1))
\* grid used by the binned bandwidth rules
Limits(s) == LET z == Order(s)  o == HDiv(HSub(z[Len(z)], z[1]), "8") IN <<HSub(z[1], o), HAdd(z[Len(z)], o)>>
BinGrid(s, inc) == LET q == Limits(s)  w == HSub(q[2], q[1])
                   IN  TLCEval([j \in 1..inc |-> HAdd(q[1], HMul(w, HFrac(j - 1, inc - 1)))])
RECURSIVE Stage(_, _, _, _, _)
Stage(A, dx, n, ix, psi) ==   \* direct plug in, from stage ix down
    IF ix = 0 THEN psi
    ELSE Stage(A, dx, n, ix - 1, PsiB(A, dx, GOf(PhiR(2 * ix + 2, "0"), psi, n, 2 * ix + 4), n, 2 * ix + 2))
Hldpi(k, s, stages, inc) ==
    LET n == Len(s)  X == BinGrid(s, inc)  dx == HSub(X[2], X[1])
        A == LagCorr(Counts(<<s>>, <<X>>, Ones(n)))
        psi == Stage(A, dx, n, stages, PsiN(2 * stages + 4, Scale(s)))
    IN  HRPow(HDiv(SteC(k, n), psi), "0.2")
RECURSIVE SteIter(_, _, _, _, _, _, _)
SteIter(A, dx, n, c4, h, hold, left) ==
    IF left = 0 \/ HLe(HAbs(HSub(hold, h)), HMul("0.01", h)) THEN h
    ELSE LET gam == HRPow(HMul(c4, HPow(h, 5)), HFrac(1, 7))
             h2 == HRPow(HDiv(SteC("gaus", n), PsiB(A, dx, gam, n, 4)), "0.2")
         IN  SteIter(A, dx, n, c4, h2, h, left - 1)
Hste(k, s, inc) ==
    LET n == Len(s)  X == BinGrid(s, inc)  dx == HSub(X[2], X[1])
        A == LagCorr(Counts(<<s>>, <<X>>, Ones(n)))
        k40 == PhiR(4, "0")  k60 == PhiR(6, "0")  sg == Scale(s)
        psi4 == PsiB(A, dx, GOf(k40, PsiN(6, sg), n, 6), n, 4)
        psi6 == PsiB(A, dx, GOf(k60, PsiN(8, sg), n, 8), n, 6)
        c4 == HDiv(HMul(HMul("2", k40), psi4), HMul(HNeg(psi6), Rough("gaus")))
        h == SteIter(A, dx, n, c4, Hns(k, s), "0", 100)
    IN  HMul(h, HRPow(HDiv(SteC(k, n), SteC("gaus", n)), "0.2"))
=============================================================================
