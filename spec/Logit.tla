------------------------------- MODULE Logit -------------------------------
(***************************************************************************)
(* Ordinal logistic regression: the probability of one of the first i      *)
(* categories is the logistic function of theta[i] + beta . x.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, HPReal
Sig(x) == HDiv("1", HAdd("1", HExp(HNeg(x))))
Inner(a, b) == IF Len(a) = 0 THEN "0" ELSE HDot(a, b)
\* probability of the first k of K categories
Cum(theta, beta, x, k) == IF k = 0 THEN "0" ELSE IF k > Len(theta) THEN "1" ELSE Sig(HAdd(theta[k], Inner(beta, x)))
Prob(theta, beta, x, k) == HSub(Cum(theta, beta, x, k), Cum(theta, beta, x, k - 1))
Categories(y) == {y[i] : i \in 1..Len(y)}
Rank(y, v) == Cardinality({w \in Categories(y) : w <= v})
Count(y) == Cardinality(Categories(y))
LogLik(theta, beta, X, y) == HSum([i \in 1..Len(y) |-> HLog(Prob(theta, beta, X[i], Rank(y, y[i])))])
\* without covariates the shares of the categories
NullLogLik(y) == HSum([i \in 1..Len(y) |-> HLog(HFrac(Cardinality({j \in 1..Len(y) : y[j] = y[i]}), Len(y)))])
\* derivatives by the parameters <<theta, beta>>; U(k) is that of the k-th linear predictor
Unit(k, nz, x) == [q \in 1..(nz + Len(x)) |-> IF q <= nz THEN (IF q = k THEN "1" ELSE "0") ELSE x[q - nz]]
Term(theta, beta, x, k) ==
    LET nz == Len(theta)
        g == TLCEval(Cum(theta, beta, x, k))  h == TLCEval(Cum(theta, beta, x, k - 1))
        p == TLCEval(HSub(g, h))
        G == TLCEval(HMul(g, HSub("1", g)))  H == TLCEval(HMul(h, HSub("1", h)))
        u == TLCEval(Unit(k, nz, x))  v == TLCEval(Unit(k - 1, nz, x))
        d == TLCEval([q \in 1..Len(u) |-> HDiv(HSub(HMul(G, u[q]), HMul(H, v[q])), p)])
        G2 == TLCEval(HMul(G, HSub("1", HMul("2", g))))  H2 == TLCEval(HMul(H, HSub("1", HMul("2", h))))
    IN  [d |-> d, h |-> TLCEval([q \in 1..Len(u) |-> [r \in 1..Len(u) |-> HSub(HDiv(HSub(HMul(G2, HMul(u[q], u[r])), HMul(H2, HMul(v[q], v[r]))), p), HMul(d[q], d[r]))]])]
Terms(theta, beta, X, y) == TLCEval([i \in 1..Len(y) |-> Term(theta, beta, X[i], Rank(y, y[i]))])
Gradient(T) == TLCEval([q \in 1..Len(T[1].d) |-> HSum([i \in 1..Len(T) |-> T[i].d[q]])])
Hessian(T) == TLCEval([q \in 1..Len(T[1].d) |-> [r \in 1..Len(T[1].d) |-> HSum([i \in 1..Len(T) |-> T[i].h[q][r]])]])
Apply(A, v) == [q \in 1..Len(A) |-> HDot(A[q], v)]
Column(A, r) == [q \in 1..Len(A) |-> A[q][r]]
Minus(A) == [q \in 1..Len(A) |-> [r \in 1..Len(A[q]) |-> HNeg(A[q][r])]]
\* upper tail of the chi-square law
ChiTail(x, n) == IF HLe(x, "0") THEN "1" ELSE HSub("1", HGammaP(HFrac(n, 2), HDiv(x, "2")))
\* variance of the k-th linear predictor at x
PredVar(C, nz, x, k) == LET u == TLCEval(Unit(k, nz, x)) IN HDot(u, Apply(C, u))
=============================================================================
