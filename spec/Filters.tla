------------------------------ MODULE Filters -------------------------------
(* Smoothing filters: local polynomials, penalized least squares, Kalman     *)
(* recursion, Hampel medians.                                                *)
EXTENDS Dct
\* ---- local least squares polynomial (Savitzky-Golay) ----
RECURSIVE Fac(_)
Fac(k) == IF k = 0 THEN 1 ELSE k * Fac(k - 1)
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
RECURSIVE ISum(_, _)
ISum(f, k) == IF k = 0 THEN 0 ELSE f[k] + ISum(f, k - 1)
\* coefficients c[1..deg+1] of the fit to y[1..2n+1] at -n..n
Fit(y, n, deg) ==
    HSolve([i \in 1..deg + 1 |-> [j \in 1..deg + 1 |-> HReal(ISum([t \in 1..2 * n + 1 |-> IPow(t - n - 1, i + j - 2)], 2 * n + 1))]],
           [i \in 1..deg + 1 |-> HSum([t \in 1..2 * n + 1 |-> HMul(HReal(IPow(t - n - 1, i - 1)), y[t])])])
\* d-th derivative at offset t, spacing delta
Deriv(c, d, t, delta) ==
    HDiv(HSum([k \in 1..Len(c) |-> IF k - 1 < d THEN "0" ELSE HMul(c[k], HReal((Fac(k - 1) \div Fac(k - 1 - d)) * IPow(t, k - 1 - d)))]), HPow(delta, d))
\* the sample at position i of the extended signal
Ext(y, i, mode, cval) ==
    LET N == Len(y) IN
    IF i \in 1..N THEN y[i]
    ELSE CASE mode = "constant" -> cval
           [] mode = "nearest" -> IF i < 1 THEN y[1] ELSE y[N]
           [] mode = "wrap" -> y[((i - 1) % N) + 1]
           [] mode = "mirror" -> LET p == 2 * (N - 1)  q == (i - 1) % p IN IF q < N THEN y[q + 1] ELSE y[p - q + 1]
SavGol(y, n, deg, d, delta, mode, cval) ==
    LET N == Len(y)
        W(a) == [t \in 1..2 * n + 1 |-> Ext(y, a + t - n - 1, mode, cval)]
    IN  IF mode # "interp" THEN TLCEval([i \in 1..N |-> Deriv(Fit(W(i), n, deg), d, 0, delta)])
        ELSE LET first == TLCEval(Fit(SubSeq(y, 1, 2 * n + 1), n, deg))  last == TLCEval(Fit(SubSeq(y, N - 2 * n, N), n, deg))
             IN  TLCEval([i \in 1..N |-> IF i <= n THEN Deriv(first, d, i - n - 1, delta)
                              ELSE IF i > N - n THEN Deriv(last, d, i - (N - n), delta)
                              ELSE Deriv(Fit(SubSeq(y, i - n, i + n), n, deg), d, 0, delta)])
\* ---- penalized least squares on a grid ----
\* Laplacian with reflecting ends, flat array, last axis fastest
Lap(z, sh) ==
    TLCEval([q \in 1..Len(z) |-> HSum([a \in 1..Len(sh) |->
        LET s == Stride(sh, a)  k == ((q - 1) \div s) % sh[a]
        IN  HAdd(IF k = 0 THEN "0" ELSE HSub(z[q - s], z[q]), IF k = sh[a] - 1 THEN "0" ELSE HSub(z[q + s], z[q]))])])
\* (W + s L L) z = W y; missing values are "nan" and have weight zero
Weights(y, w) == LET v == TLCEval([i \in 1..Len(y) |-> IF HIsFinite(y[i]) THEN w[i] ELSE "0"])
                     m == TLCEval(HMax(v[1], CHOOSE x \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : HLe(v[i], x)))
                 IN TLCEval([i \in 1..Len(y) |-> HDiv(v[i], m)])
Known(y) == [i \in 1..Len(y) |-> IF HIsFinite(y[i]) THEN y[i] ELSE "0"]
Solves(z, y, W, s, sh, tol) ==
    LET k == Known(y)  L == Lap(Lap(z, sh), sh)
        b == HAdd(HSum([i \in 1..Len(y) |-> HAbs(k[i])]), "1e-300")
    IN  \A i \in 1..Len(y) : HIsFinite(z[i]) /\ HClose(HAdd(HMul(W[i], z[i]), HMul(s, L[i])), HMul(W[i], k[i]), HMul(HMul(tol, b), HAdd("1", s)), "0")
Unit(i, n) == [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]
\* the solution itself for vectors
SmoothV(y, W, s) ==
    LET n == Len(y)  k == Known(y)
        cols == TLCEval([j \in 1..n |-> Lap(Lap(Unit(j, n), <<n>>), <<n>>)])
    IN  HSolve([i \in 1..n |-> [j \in 1..n |-> HAdd(HMul(s, cols[j][i]), IF i = j THEN W[i] ELSE "0")]], [i \in 1..n |-> HMul(W[i], k[i])])
SortedH(v) == SortSeq(v, LAMBDA a, b : HLt(a, b))
Median(v) == LET s == SortedH(v)  n == Len(s) IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE HDiv(HAdd(s[n \div 2], s[n \div 2 + 1]), "2")
\* weights of robust smoothing from the residuals of the step before
Leverage(s) == LET h == HSqrt(HAdd("1", HMul("16", s))) IN HDiv(HDiv(HSqrt(HAdd("1", h)), HSqrt("2")), h)
Pick(v, P(_)) == SelectSeq([i \in 1..Len(v) |-> <<i, v[i]>>], LAMBDA p : P(p[1]))
Vals(v, P(_)) == LET s == Pick(v, P) IN [i \in 1..Len(s) |-> s[i][2]]
Robust(y, z, s, kind) ==
    LET k == Known(y)
        r == TLCEval([i \in 1..Len(y) |-> HSub(k[i], z[i])])
        fin(i) == HIsFinite(y[i])
        m == Median(Vals(r, fin))
        mad == Median(Vals([i \in 1..Len(y) |-> HAbs(HSub(r[i], m))], fin))
        den == TLCEval(HMul(HMul("1.4826", mad), HSqrt(HSub("1", Leverage(s)))))
        u == TLCEval([i \in 1..Len(y) |-> HDiv(HAbs(r[i]), den)])
    IN  TLCEval([i \in 1..Len(y) |->
          CASE kind = "cauchy" -> HDiv("1", HAdd("1", HPow(HDiv(u[i], "2.385"), 2)))
            [] kind = "talworth" -> IF HLt(u[i], "2.795") THEN "1" ELSE "0"
            [] OTHER -> LET q == HDiv(u[i], "4.685") IN IF HLt(q, "1") THEN HPow(HSub("1", HPow(q, 2)), 2) ELSE "0"])
\* generalized cross validation for an unweighted vector, and the limits of the automatic parameter
Gcv(c, s) ==      \* c: orthonormal cosine transform of the data
    LET n == Len(c)
        g == TLCEval([k \in 1..n |-> HDiv("1", HAdd("1", HMul(s, HPow(HSub("2", HMul("2", HCos(PiF(k - 1, n)))), 2))))])
        rss == HSum([k \in 1..n |-> HPow(HMul(c[k], HSub("1", g[k])), 2)])
    IN  HDiv(HDiv(rss, HReal(n)), HPow(HSub("1", HMean(g)), 2))
SPar(h) == HDiv(HSub(HPow(HDiv(HAdd("1", HSqrt(HAdd("1", HMul("8", h)))), HMul("4", h)), 2), "1"), "16")
SMin(rank) == SPar(HRPow("0.99", HFrac(2, rank)))
SMax(rank) == SPar(HRPow("0.000001", HFrac(2, rank)))
\* the Hodrick-Prescott trend minimizes sum (x-z)^2 + w sum (second difference)^2
Second(z) == [i \in 1..Len(z) - 2 |-> HAdd(HSub(z[i], HMul("2", z[i + 1])), z[i + 2])]
SecondT(v, n) == [i \in 1..n |-> HSum(<<IF i <= n - 2 THEN v[i] ELSE "0", IF i \in 2..n - 1 THEN HMul("-2", v[i - 1]) ELSE "0", IF i >= 3 THEN v[i - 2] ELSE "0">>)]
\* ---- Kalman recursion; matrices are sequences of rows ----
Tr(M) == [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
MM(A, B) == LET Bt == Tr(B) IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> HDot(A[i], Bt[j])]])
MV(A, x) == TLCEval([i \in 1..Len(A) |-> HDot(A[i], x)])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> HAdd(A[i][j], B[i][j])]])
MSub(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> HSub(A[i][j], B[i][j])]])
VAdd(a, b) == [i \in 1..Len(a) |-> HAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> HSub(a[i], b[i])]
\* K = P H' (H P H' + R)^-1: row i of K solves S' k = (P H')_i
Gain(P, H, R) == LET PH == MM(P, Tr(H))  S == MAdd(MM(H, PH), R)  St == Tr(S) IN TLCEval([i \in 1..Len(P) |-> HSolve(St, PH[i])])
KStep(k, z, u) ==
    LET P == MAdd(MM(MM(k.A, k.P), Tr(k.A)), k.Q)
        x == VAdd(MV(k.A, k.x), MV(k.B, u))
        K == Gain(P, k.H, k.R)
    IN  [k EXCEPT !.P = MSub(P, MM(K, MM(k.H, P))), !.x = VAdd(x, MV(K, VSub(z, MV(k.H, x))))]
\* ---- Hampel ----
Win(X, Y, dx, i) == Vals(Y, LAMBDA j : HLe(HSub(X[i], dx), X[j]) /\ HLe(X[j], HAdd(X[i], dx)))
Local(X, Y, dx, i) == LET w == Win(X, Y, dx, i)  m == Median(w) IN <<m, HMul("1.4826", Median([j \in 1..Len(w) |-> HAbs(HSub(w[j], m))]))>>
RECURSIVE Widen(_, _, _, _, _, _, _)
Widen(X, Y, dx, i, j, prev, lim) ==       \* prev: the values with window j-1
    LET cur == Local(X, Y, HMul(HReal(j), dx), i)  d == HAdd(prev[2], cur[2])
    IN  IF j = Len(Y) \/ HEq(d, "0") \/ ~HLt(lim, HAbs(HDiv(HDiv(HSub(prev[2], cur[2]), d), "2"))) THEN <<prev[1], prev[2], HReal(j - 1)>>
        ELSE Widen(X, Y, dx, i, j + 1, cur, lim)
Adapt(X, Y, dx, i, lim) == Widen(X, Y, dx, i, 2, Local(X, Y, dx, i), lim)
SmG(X, V, D) == TLCEval([i \in 1..Len(X) |->
    LET w == [j \in 1..Len(X) |-> HExp(HNeg(HPow(HDiv(HSub(X[i], X[j]), HMul("2", D)), 2)))] IN HDiv(HDot(w, V), HSum(w))])
=============================================================================
