-------------------------------- MODULE Sim ---------------------------------
(* Simulated Gaussian and second order waves.                               *)
EXTENDS Cov
\* linear interpolation on increasing x, zero outside
LinAt(x, y, t) ==
    LET s == {i \in 1..(Len(x) - 1) : HLe(x[i], t) /\ HLe(t, x[i + 1])}
    IN  IF s = {} THEN "0"
        ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j
             IN  HAdd(y[i], HMul(HSub(t, x[i]), HDiv(HSub(y[i + 1], y[i]), HSub(x[i + 1], x[i]))))
\* one sided density in Hz at the frequencies j/(ns*dt), j = 1..ns/2-1, with zero energy at both ends
HzLines(x, s, ft, ns, dt) ==
    LET n == Len(x)  K == IF ft = "f" THEN "1" ELSE TwoPi
        fx == TLCEval([i \in 1..n |-> IF i = n THEN HDiv("0.5", dt) ELSE IF i = 1 THEN "0" ELSE HDiv(x[i], K)])
        fs == TLCEval([i \in 1..n |-> IF i \in {1, n} THEN "0" ELSE HMul(HAbs(s[i]), K)])
    IN  TLCEval([j \in 1..((ns \div 2) - 1) |-> LinAt(fx, fs, HDiv(HReal(j), HMul(HReal(ns), dt)))])
\* covariance at lag k of the periodic process with these lines
LineCov(lines, ns, dt, k) ==
    HSum([j \in 1..Len(lines) |-> HMul(HDiv(lines[j], HMul(HReal(ns), dt)), HCos(HDiv(HMul(TwoPi, HReal(j * k)), HReal(ns))))])
\* complex amplitude of frequency k of a record: (1/n) sum x e^{2 pi i k m/n}
Ang(k, m, n) == HDiv(HMul(TwoPi, HReal((k * m) % n)), HReal(n))
AmpRe(x, k) == HDiv(HSum([m \in 1..Len(x) |-> HMul(x[m], HCos(Ang(k, m - 1, Len(x))))]), HReal(Len(x)))
AmpIm(x, k) == HDiv(HSum([m \in 1..Len(x) |-> HMul(x[m], HSin(Ang(k, m - 1, Len(x))))]), HReal(Len(x)))
\* time derivative of the trigonometric interpolant of a record without Nyquist component
SpecDer(x, dt, m) ==
    LET n == Len(x) IN
    HSum([k \in 1..((n \div 2) - 1) |->
        LET w == HDiv(HMul(TwoPi, HReal(k)), HMul(HReal(n), dt))
            a == HMul("2", AmpRe(x, k))  b == HMul("2", AmpIm(x, k))     \* x = sum a cos + b sin
        IN  HMul(w, HSub(HMul(b, HCos(Ang(k, m, n))), HMul(a, HSin(Ang(k, m, n)))))])
---------------------------------------------------------------------------
\* second order transfer of sum and difference frequencies; k: wave numbers
Sqr(a) == HMul(a, a)
SinhX(a) == HDiv(HSub(HExp(a), HExp(HNeg(a))), "2")
EPlus(w1, w2, k1, k2, h, g, deep) ==
    IF deep THEN HDiv(HAdd(k1, k2), "2")
    ELSE LET a == HDiv(HMul(g, HMul(k1, k2)), HMul(w1, w2))
             b == HDiv(HAdd(HAdd(Sqr(w1), Sqr(w2)), HMul(w1, w2)), HMul("2", g))
             c == HDiv(HMul(g, HAdd(HMul(w1, Sqr(k2)), HMul(w2, Sqr(k1)))), HMul("2", HMul(HMul(w1, w2), HAdd(w1, w2))))
             d == HSub("1", HMul(HDiv(HMul(g, HAdd(k1, k2)), Sqr(HAdd(w1, w2))), HTanh(HMul(HAdd(k1, k2), h))))
         IN  HSub(HAdd(HDiv(HAdd(HSub(a, b), c), d), b), HDiv(a, "2"))
EMinus(w1, w2, k1, k2, h, g, deep) ==      \* w1 # w2
    IF deep THEN HNeg(HDiv(HAbs(HSub(k1, k2)), "2"))
    ELSE LET a == HDiv(HMul(g, HMul(k1, k2)), HMul(w1, w2))
             b == HDiv(HSub(HAdd(Sqr(w1), Sqr(w2)), HMul(w1, w2)), HMul("2", g))
             c == HNeg(HDiv(HMul(g, HSub(HMul(w1, Sqr(k2)), HMul(w2, Sqr(k1)))), HMul("2", HMul(HMul(w1, w2), HSub(w1, w2)))))
             d == HSub("1", HMul(HDiv(HMul(g, HSub(k1, k2)), Sqr(HSub(w1, w2))), HTanh(HMul(HSub(k1, k2), h))))
         IN  HSub(HAdd(HDiv(HAdd(HSub(a, b), c), d), b), HDiv(a, "2"))
\* limit of EMinus for equal frequencies: set-down
EZero(w, k, h, g, deep) ==
    IF deep THEN "0"
    ELSE LET t == HTanh(HMul(k, h))
             cg == HDiv(HMul(HDiv(g, "2"), HAdd(t, HMul(HMul(k, h), HSub("1", Sqr(t))))), w)
             a == HMul(HDiv(g, "2"), Sqr(HDiv(k, w)))
             b == HDiv(Sqr(w), HMul("2", g))
             kh == HMul(HMul("2", k), h)
         IN  HSub(HDiv(HAdd(HSub(a, b), HDiv(HMul(g, k), HMul(w, cg))), HSub("1", HDiv(HMul(g, h), Sqr(cg)))),
                  IF HLt("600", kh) THEN "0" ELSE HDiv(k, SinhX(kh)))
\* second order part of a record at sample m = 0, 1, .. from the amplitudes re, im of the lines lo..hi (sequences
\* of length hi - lo + 1), frequencies w and wave numbers k
SecondAt(re, im, lo, w, k, h, g, deep, n, m, ep, em) ==
    LET B == Len(re)
        C(i) == HCos(Ang(lo + i - 1, m, n))  S(i) == HSin(Ang(lo + i - 1, m, n))
        \* z_i = A_i e^{-i theta_i}
        zr == TLCEval([i \in 1..B |-> HAdd(HMul(re[i], C(i)), HMul(im[i], S(i)))])
        zi == TLCEval([i \in 1..B |-> HSub(HMul(im[i], C(i)), HMul(re[i], S(i)))])
        One(i) == HMul("2", HAdd(HMul(ep[i][i], HSub(Sqr(zr[i]), Sqr(zi[i]))), HMul(em[i][i], HAdd(Sqr(zr[i]), Sqr(zi[i])))))
        Two(i, j) == HMul("4", HAdd(HMul(ep[i][j], HSub(HMul(zr[i], zr[j]), HMul(zi[i], zi[j]))),
                                    HMul(em[i][j], HAdd(HMul(zr[i], zr[j]), HMul(zi[i], zi[j])))))
    IN  HSum([i \in 1..B |-> HAdd(One(i), HSum([j \in 1..(B - i) |-> Two(i, i + j)]))])
EPMat(w, k, h, g, deep) == TLCEval([i \in 1..Len(w) |-> [j \in 1..Len(w) |-> IF j < i THEN "0" ELSE EPlus(w[i], w[j], k[i], k[j], h, g, deep)]])
EMMat(w, k, h, g, deep) == TLCEval([i \in 1..Len(w) |-> [j \in 1..Len(w) |-> IF j < i THEN "0" ELSE IF j = i THEN EZero(w[i], k[i], h, g, deep) ELSE EMinus(w[i], w[j], k[i], k[j], h, g, deep)]])
=============================================================================
