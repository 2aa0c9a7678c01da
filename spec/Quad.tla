-------------------------------- MODULE Quad --------------------------------
(* Quadrature: exact integrals of polynomials against the weight functions.  *)
EXTENDS HPReal, Integers, Sequences, FiniteSets, TLC
LBeta(a, b) == HSub(HAdd(HLGamma(a), HLGamma(b)), HLGamma(HAdd(a, b)))
BetaF(a, b) == HExp(LBeta(a, b))
\* moments of (1-x)^al (1+x)^be on [-1, 1]: <<moment k, moment k-1>>
RECURSIVE JacM(_, _, _)
JacM(k, al, be) ==
    IF k = 0 THEN <<HMul(HRPow("2", HSum(<<al, be, "1">>)), BetaF(HAdd(al, "1"), HAdd(be, "1"))), "0">>
    ELSE LET p == JacM(k - 1, al, be)
         IN <<HDiv(HAdd(HMul(HSub(be, al), p[1]), HMul(HReal(k - 1), p[2])), HAdd(HAdd(al, be), HReal(k + 1))), p[1]>>
Moment(w, k, al, be) ==
    CASE w = 1 -> IF k % 2 = 1 THEN "0" ELSE HFrac(2, k + 1)
      [] w = 2 -> IF k % 2 = 1 THEN "0" ELSE HExp(HLGamma(HFrac(k + 1, 2)))
      [] w = 3 -> HExp(HLGamma(HAdd(al, HReal(k + 1))))
      [] w = 4 -> JacM(k, al, be)[1]
      [] w = 5 -> JacM(k, "-0.5", "-0.5")[1]
      [] w = 6 -> JacM(k, "0.5", "0.5")[1]
      [] w = 7 -> BetaF(HFrac(2 * k + 3, 2), "0.5")
      [] w = 8 -> BetaF(HReal(k + 1), "0.5")
      [] w = 9 -> BetaF(HReal(k + 1), "1.5")
Inside(w, x) == CASE w = 2 -> TRUE [] w = 3 -> HLt("0", x) [] w \in {1, 4, 5, 6} -> HLt("-1", x) /\ HLt(x, "1") [] OTHER -> HLt("0", x) /\ HLt(x, "1")
\* weights scale with the length h (half length for 1, 4, 5, 6) of the interval
Scale(w, h, al, be) == CASE w \in {1, 7} -> h [] w \in {2, 3} -> "1" [] w = 4 -> HRPow(h, HSum(<<al, be, "1">>)) [] w = 5 -> "1" [] w = 6 -> HPow(h, 2)
                          [] w = 8 -> HSqrt(h) [] w = 9 -> HMul(h, HSqrt(h))
\* integral from a to b of the polynomial with coefficients c, lowest power first
PolyInt(c, a, b) == HSum([k \in 1..Len(c) |-> HMul(c[k], HDiv(HSub(HPow(b, k), HPow(a, k)), HReal(k)))])
PolyAbs(c, a, b) == HSum([k \in 1..Len(c) |-> HMul(HAbs(c[k]), HDiv(HAdd(HPow(HAbs(b), k), HPow(HAbs(a), k)), HReal(k)))])
\* complex numbers as pairs
CMul(x, y) == <<HSub(HMul(x[1], y[1]), HMul(x[2], y[2])), HAdd(HMul(x[1], y[2]), HMul(x[2], y[1]))>>
CSub(x, y) == <<HSub(x[1], y[1]), HSub(x[2], y[2])>>
CScale(r, x) == <<HMul(r, x[1]), HMul(r, x[2])>>
Cis(t) == <<HCos(t), HSin(t)>>
OverI(x, w) == <<HDiv(x[2], w), HNeg(HDiv(x[1], w))>>          \* x/(i w)
\* integral of t^k exp(i w t)
RECURSIVE Osc(_, _, _, _)
Osc(k, w, a, b) ==
    LET e == OverI(CSub(CScale(HPow(b, k), Cis(HMul(w, b))), CScale(HPow(a, k), Cis(HMul(w, a)))), w)
    IN  IF k = 0 THEN e ELSE CSub(e, OverI(CScale(HReal(k), Osc(k - 1, w, a, b)), w))
=============================================================================
