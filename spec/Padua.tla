------------------------------- MODULE Padua --------------------------------
(* Interpolation in the Padua points: the points where the curve             *)
(* (-cos((n+1)t), -cos(nt)) meets itself or the boundary, and the polynomial *)
(* of degree n through given values in them.                                 *)
EXTENDS HPReal, Integers, Sequences, TLC
CosPi(i, n) == HCos(HDiv(HMul(HReal(i), HPi), HReal(n)))
\* billiard position after k steps in 0..n
Fold(k, n) == LET m == k % (2 * n) IN IF m <= n THEN m ELSE 2 * n - m
\* the points on the unit square, as lattice points <<i, j>> for (-cos(i pi / n), -cos(j pi / (n + 1)))
Lattice(n) == IF n = 0 THEN {<<0, 0>>} ELSE {<<Fold(k, n), Fold(k, n + 1)>> : k \in 0..n * (n + 1)}
PointOf(p, n) == IF n = 0 THEN <<"-1", "-1">> ELSE <<HNeg(CosPi(p[1], n)), HNeg(CosPi(p[2], n + 1))>>
To(u, a, b) == HDiv(HAdd(HAdd(a, b), HMul(HSub(b, a), u)), "2")
From(x, a, b) == HDiv(HSub(HMul("2", x), HAdd(a, b)), HSub(b, a))
RECURSIVE Cheb(_, _)
Cheb(m, x) == IF m = 0 THEN <<"1">> ELSE IF m = 1 THEN <<"1", x>> ELSE LET s == TLCEval(Cheb(m - 1, x)) IN Append(s, HSub(HMul("2", HMul(x, s[m])), s[m - 1]))
\* orthonormal: sqrt 2 times the Chebyshev polynomials but the first
Norm(m, x) == LET s == TLCEval(Cheb(m, x))  r == HSqrt("2") IN TLCEval([i \in 1..m + 1 |-> IF i = 1 THEN "1" ELSE HMul(r, s[i])])
\* index pairs of the terms of degree at most n
RECURSIVE Pairs(_)
Pairs(n) == IF n < 0 THEN <<>> ELSE Pairs(n - 1) \o [i \in 1..n + 1 |-> <<i - 1, n + 1 - i>>]
\* coefficients in the order of Pairs(n) of the polynomial with value f[q] in the point x[q], y[q] of the unit square
Coefs(n, x, y, f) ==
    LET P == TLCEval(Pairs(n))
    IN  HSolve(TLCEval([q \in 1..Len(f) |-> LET a == Norm(n, x[q])  b == Norm(n, y[q]) IN [m \in 1..Len(P) |-> HMul(a[P[m][1] + 1], b[P[m][2] + 1])]]), f)
\* sum of M[i][j] T_i(x) T_j(y)
Value(M, x, y) == LET n == Len(M) - 1  a == Norm(n, x)  b == Norm(n, y) IN HSum([i \in 1..n + 1 |-> HMul(a[i], HDot(M[i], b))])
\* integrals of the orthonormal polynomials over [-1, 1]
Moment(i) == IF i = 0 THEN "2" ELSE IF i % 2 = 1 THEN "0" ELSE HDiv(HMul("2", HSqrt("2")), HReal(1 - i * i))
Integral(M) == HSum([i \in 1..Len(M) |-> HMul(Moment(i - 1), HDot(M[i], [j \in 1..Len(M) |-> Moment(j - 1)]))])
\* twice the size of the coefficients of the highest degree
ErrorEstimate(M) == LET n == Len(M) - 1 IN
    HMul("2", HSum([i \in 1..n + 1 |-> HSum([j \in 1..n + 1 |-> IF i + j - 2 = n THEN HAbs(M[i][j]) ELSE "0"])]))
=============================================================================
