-------------------------------- MODULE Gauss -------------------------------
(* Gaussian vectors: rectangle probabilities and expectations of absolute    *)
(* values, in one to three dimensions, by conditioning and quadrature.       *)
EXTENDS HPReal, Integers, Sequences, FiniteSets, TLC
One(v) == HSub("1", v)
Phi(x) == IF HLt(x, "-40") THEN "0" ELSE IF HLt("40", x) THEN "1" ELSE HPhi(x)
phi(x) == IF HLt("40", HAbs(x)) THEN "0" ELSE HDiv(HExp(HNeg(HDiv(HMul(x, x), "2"))), HSqrt(HMul("2", HPi)))
\* five point Gauss-Legendre rule on P panels: exact to degree nine
R70 == HSqrt("70")
Node(j) == IF j = 3 THEN "0" ELSE LET t == HDiv(HSqrt((IF j \in {2, 4} THEN HSub("5", HMul("2", HSqrt(HDiv("10", "7")))) ELSE HAdd("5", HMul("2", HSqrt(HDiv("10", "7")))))), "3") IN IF j < 3 THEN HNeg(t) ELSE t
Weight(j) == IF j = 3 THEN HDiv("128", "225") ELSE HDiv(IF j \in {2, 4} THEN HAdd("322", HMul("13", R70)) ELSE HSub("322", HMul("13", R70)), "900")
Nodes == TLCEval([j \in 1..5 |-> Node(j)])
Weights == TLCEval([j \in 1..5 |-> Weight(j)])
Quad(f(_), a, b, P) ==
    LET h == HDiv(HSub(b, a), HReal(2 * P))
        c(p) == HAdd(a, HMul(h, HReal(2 * p - 1)))
    IN  IF HLe(b, a) THEN "0" ELSE HMul(h, HSum([k \in 1..5 * P |-> LET p == ((k - 1) \div 5) + 1  j == ((k - 1) % 5) + 1 IN HMul(Weights[j], f(HAdd(c(p), HMul(h, Nodes[j]))))]))
\* Owen's function on 0 <= a <= 1, and everywhere
OwenCore(h, a, P) == LET f(x) == HDiv(HExp(HNeg(HDiv(HMul(HMul(h, h), HAdd("1", HMul(x, x))), "2"))), HAdd("1", HMul(x, x))) IN HDiv(Quad(f, "0", a, P), HMul("2", HPi))
OwenPos(h, a, P) ==
    IF HLe(a, "1") THEN OwenCore(h, a, P)
    ELSE LET ah == HMul(a, h) IN HSub(HSub(HDiv(HAdd(Phi(h), Phi(ah)), "2"), HMul(Phi(h), Phi(ah))), OwenCore(ah, HDiv("1", a), P))
Owen(h, a, P) == LET g == HAbs(h) IN IF HLt(a, "0") THEN HNeg(OwenPos(g, HNeg(a), P)) ELSE OwenPos(g, a, P)
\* bivariate distribution function: by the angle of the correlation, by Owen's function
Phi2Angle(h, k, r, P) ==
    LET s == HAdd(HMul(h, h), HMul(k, k))  hk == HMul(h, k)
        f(t) == HExp(HNeg(HDiv(HSub(s, HMul("2", HMul(hk, HSin(t)))), HMul("2", HPow(HCos(t), 2)))))
        top == HAtan(HDiv(r, HSqrt(One(HMul(r, r)))))
        g(t) == IF HLt(r, "0") THEN f(HNeg(t)) ELSE f(t)
    IN  HAdd(HMul(Phi(h), Phi(k)), HMul(IF HLt(r, "0") THEN "-1" ELSE "1", HDiv(Quad(g, "0", HAbs(top), P), HMul("2", HPi))))
Phi2Owen(h, k, r, P) ==
    LET c == HSqrt(One(HMul(r, r)))
        a == HDiv(HSub(HDiv(k, h), r), c)  b == HDiv(HSub(HDiv(h, k), r), c)
    IN  HSub(HSub(HSub(HDiv(HAdd(Phi(h), Phi(k)), "2"), Owen(h, a, P)), Owen(k, b, P)), IF HLt("0", HMul(h, k)) THEN "0" ELSE "0.5")
Phi2(h, k, r) ==
    IF HLe("1", r) THEN (IF HLt(h, k) THEN Phi(h) ELSE Phi(k))
    ELSE IF HLe(r, "-1") THEN HMax("0", HSub(HAdd(Phi(h), Phi(k)), "1"))
    ELSE IF HLe(HAbs(r), "0.8") THEN Phi2Angle(h, k, r, 10) ELSE IF HEq(h, "0") \/ HEq(k, "0") THEN Phi2Angle(h, k, r, 40) ELSE Phi2Owen(h, k, r, 8)
Clip(x) == IF HLt(x, "-39") THEN "-39" ELSE IF HLt("39", x) THEN "39" ELSE x
Box2(a, b, r) == LET F(x, y) == IF HLe(x, "-39") \/ HLe(y, "-39") THEN "0" ELSE IF HLe("39", x) THEN Phi(y) ELSE IF HLe("39", y) THEN Phi(x) ELSE Phi2(x, y, r)
                     A == [i \in 1..2 |-> Clip(a[i])]  B == [i \in 1..2 |-> Clip(b[i])]
                 IN  IF HLe(B[1], A[1]) \/ HLe(B[2], A[2]) THEN "0" ELSE HAdd(HSub(HSub(F(B[1], B[2]), F(A[1], B[2])), F(B[1], A[2])), F(A[1], A[2]))
Box1(a, b) == IF HLe(b, a) THEN "0" ELSE HSub(Phi(Clip(b)), Phi(Clip(a)))
\* correlations rho[i] rho[j]: the common factor is integrated out (trapezoid of a function that dies out on both sides)
Trapezoid(f(_), a, h, n) == HMul(h, HSum([k \in 1..n + 1 |-> f(HAdd(a, HMul(h, HReal(k - 1))))]))
RECURSIVE ProductTo(_, _)
ProductTo(v, k) == IF k = 0 THEN "1" ELSE HMul(ProductTo(v, k - 1), v[k])
Product(v) == ProductTo(v, Len(v))
BoxProduct(rho, a, b) ==
    LET s == TLCEval([i \in 1..Len(rho) |-> HSqrt(One(HMul(rho[i], rho[i])))])
        f(z) == HMul(phi(z), Product([i \in 1..Len(rho) |-> Box1(HDiv(HSub(a[i], HMul(rho[i], z)), s[i]), HDiv(HSub(b[i], HMul(rho[i], z)), s[i]))]))
    IN  Trapezoid(f, "-8", "0.1", 160)
\* Student's law in one dimension (the interval from a to b)
StudentCdf(x, df) == LET w == HBetaI(HDiv(HReal(df), "2"), "0.5", HDiv(HReal(df), HAdd(HReal(df), HMul(x, x)))) IN IF HLt("0", x) THEN One(HDiv(w, "2")) ELSE HDiv(w, "2")
\* expectations under N(m, s^2) on [a, b]
P1(m, s, a, b) == Box1(HDiv(HSub(a, m), s), HDiv(HSub(b, m), s))
Part(m, s, a, b) == LET u == Clip(HDiv(HSub(a, m), s))  v == Clip(HDiv(HSub(b, m), s)) IN IF HLe(v, u) THEN "0" ELSE HAdd(HMul(m, HSub(Phi(v), Phi(u))), HMul(s, HSub(phi(u), phi(v))))
EAbs(m, s, a, b) == HSub(Part(m, s, HMax(a, "0"), b), Part(m, s, a, HMin(b, "0")))
\* E[ product of |X_i|, i in D ; a < X < b ] in two dimensions, the first integrated outside
Expect2(m, S, a, b, D) ==
    LET s1 == HSqrt(S[1][1])  c == HDiv(S[1][2], S[1][1])  s2 == HSqrt(HSub(S[2][2], HMul(c, S[1][2])))
        lo == HMax(a[1], HSub(m[1], HMul("9", s1)))  hi == HMin(b[1], HAdd(m[1], HMul("9", s1)))
        inner(x) == LET mu == HAdd(m[2], HMul(c, HSub(x, m[1]))) IN IF 2 \in D THEN EAbs(mu, s2, a[2], b[2]) ELSE P1(mu, s2, a[2], b[2])
        f(x) == HMul(HMul(IF 1 \in D THEN HAbs(x) ELSE "1", HDiv(phi(HDiv(HSub(x, m[1]), s1)), s1)), inner(x))
    IN  HAdd(Quad(f, lo, HMin(hi, HMax("0", lo)), 14), Quad(f, HMax(lo, HMin("0", hi)), hi, 14))
Expect1(m, S, a, b, D) == IF D = {} THEN P1(m[1], HSqrt(S[1][1]), a[1], b[1]) ELSE EAbs(m[1], HSqrt(S[1][1]), a[1], b[1])
\* given the last variable: density there times the conditional expectation
Given(m, S, a, b, D, x) ==
    LET n == Len(m)  v == S[n][n]
        mm == TLCEval([i \in 1..n - 1 |-> HAdd(m[i], HMul(HDiv(S[i][n], v), HSub(x, m[n])))])
        SS == TLCEval([i \in 1..n - 1 |-> [j \in 1..n - 1 |-> HSub(S[i][j], HDiv(HMul(S[i][n], S[j][n]), v))]])
        d == HDiv(phi(HDiv(HSub(x, m[n]), HSqrt(v))), HSqrt(v))
    IN  HMul(d, IF n = 2 THEN Expect1(mm, SS, a, b, D) ELSE Expect2(mm, SS, a, b, D))
\* distribution of the local maxima of a Gaussian process
MaximaCdf(x, alpha, m0) ==
    LET u == HDiv(x, HSqrt(m0))  c == HDiv(u, HSqrt(One(HMul(alpha, alpha))))
    IN  HSub(Phi(c), HMul(HMul(alpha, HExp(HNeg(HDiv(HMul(u, u), "2")))), Phi(HMul(alpha, c))))
=============================================================================
