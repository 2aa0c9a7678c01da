------------------------------ MODULE SpecData ------------------------------
(***************************************************************************)
(* One and two dimensional spectra given in points: Simpson integrals,      *)
(* spectral moments, characteristics with their asymptotic variances,       *)
(* bandwidth factors, normalization, resampling, second order statistics.   *)
(* A spectrum is a pair of sequences (frequency, density); everything is    *)
(* defined for angular frequency, a spectrum in Hz is converted first.      *)
(***************************************************************************)
EXTENDS HPReal, Integers, Sequences, FiniteSets, TLC
TwoPi == HMul("2", HPi)
AngF(x, ft) == IF ft = "f" THEN [i \in 1..Len(x) |-> HMul(TwoPi, x[i])] ELSE x
AngS(s, ft) == IF ft = "f" THEN [i \in 1..Len(s) |-> HDiv(s[i], TwoPi)] ELSE s
\* Simpson weights on any grid: parabolas over pairs of intervals, for an odd
\* number of intervals the parabola through the last three points over the last one
Pair(x, i, k) ==      \* weight of point i + k (k = 0, 1, 2) for the parabola over x[i], x[i+1], x[i+2]
    LET h0 == HSub(x[i + 1], x[i])  h1 == HSub(x[i + 2], x[i + 1])  hs == HAdd(h0, h1)
    IN  HMul(HDiv(hs, "6"), CASE k = 0 -> HSub("2", HDiv(h1, h0)) [] k = 2 -> HSub("2", HDiv(h0, h1)) [] OTHER -> HDiv(HMul(hs, hs), HMul(h0, h1)))
Last(x, k) ==         \* last interval: weights of x[n], x[n-1], x[n-2] for k = 0, 1, 2
    LET n == Len(x)  h0 == HSub(x[n - 1], x[n - 2])  h1 == HSub(x[n], x[n - 1])
    IN  CASE k = 0 -> HDiv(HAdd(HMul("2", HMul(h1, h1)), HMul("3", HMul(h0, h1))), HMul("6", HAdd(h0, h1)))
          [] k = 1 -> HDiv(HAdd(HMul(h1, h1), HMul("3", HMul(h0, h1))), HMul("6", h0))
          [] OTHER -> HNeg(HDiv(HMul(h1, HMul(h1, h1)), HMul("6", HMul(h0, HAdd(h0, h1)))))
Simpson(x) ==
    LET n == Len(x)  m == IF n % 2 = 1 THEN n ELSE n - 1
        Base(i) == IF i > m \/ m < 3 THEN "0"
                   ELSE IF i % 2 = 0 THEN Pair(x, i - 1, 1)
                   ELSE HAdd(IF i < m THEN Pair(x, i, 0) ELSE "0", IF i > 1 THEN Pair(x, i - 2, 2) ELSE "0")
    IN  IF n = 1 THEN <<"0">>
        ELSE IF n = 2 THEN LET d == HDiv(HSub(x[2], x[1]), "2") IN <<d, d>>
        ELSE TLCEval([i \in 1..n |-> IF n % 2 = 0 /\ i >= n - 2 THEN HAdd(Base(i), Last(x, n - i)) ELSE Base(i)])
Trapz(x) == LET n == Len(x) IN TLCEval([i \in 1..n |-> HDiv(HAdd(IF i > 1 THEN HSub(x[i], x[i - 1]) ELSE "0", IF i < n THEN HSub(x[i + 1], x[i]) ELSE "0"), "2")])
\* moment of order k of |S|^p
Mom(w, s, wt, k, p) == HSum([i \in 1..Len(w) |-> HMul(wt[i], HMul(HPow(HAbs(s[i]), p), HPow(w[i], k)))])
MomAbs(w, s, wt, k, p) == HSum([i \in 1..Len(w) |-> HMul(HAbs(wt[i]), HMul(HPow(HAbs(s[i]), p), HPow(HAbs(w[i]), k)))])
\* restriction to positive frequencies, for the negative moments
Pos(w, v) == LET n == Cardinality({i \in 1..Len(w) : HLe(w[i], "0")}) IN SubSeq(v, n + 1, Len(v))
\* the moments in Hz that the characteristics need: m(k), k = -1..4, and M(k) = Cov kernel, k = -2..8
HzMoments(w, s, T) ==
    LET wt == Simpson(w)  wp == Pos(w, w)  sp == Pos(w, s)  wtp == Simpson(wp)
        Neg(k, p) == HSum([i \in 1..Len(wp) |-> HMul(wtp[i], HDiv(HPow(sp[i], p), HPow(wp[i], k)))])
    IN  TLCEval([m |-> [k \in -1..4 |-> IF k < 0 THEN HMul(Neg(1, 1), TwoPi) ELSE HDiv(Mom(w, s, wt, k, 1), HPow(TwoPi, k))],
                 c |-> [k \in -2..8 |-> HDiv(IF k < 0 THEN HMul(Neg(0 - k, 2), HPow(TwoPi, 1 - k))
                                             ELSE IF k = 0 THEN HMul(Mom(w, s, wt, 0, 2), TwoPi) ELSE HDiv(Mom(w, s, wt, k, 2), HPow(TwoPi, k - 1)), T)]])
\* exponents of the moments in the characteristics that are power products of moments
Exps == [Hm0 |-> (0 :> "0.5"), Tm01 |-> (0 :> "1" @@ 1 :> "-1"), Tm02 |-> (0 :> "0.5" @@ 2 :> "-0.5"), Tm24 |-> (2 :> "0.5" @@ 4 :> "-0.5"),
         Tm_10 |-> ((-1) :> "1" @@ 0 :> "-1"), Ss |-> (0 :> "-0.5" @@ 2 :> "1"), Alpha |-> (0 :> "-0.5" @@ 2 :> "1" @@ 4 :> "-0.5"),
         Q |-> (0 :> "1" @@ 2 :> "1" @@ 1 :> "-2")]
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN HAdd(f[x], SumSet(S \ {x}, f))
Sg(abs, v) == IF abs THEN HAbs(v) ELSE v
\* relative covariance (abs: sum of the absolute terms) of two power products by first order expansion
RelCov(a, b, h, abs) == SumSet((DOMAIN a) \X (DOMAIN b), TLCEval([p \in (DOMAIN a) \X (DOMAIN b) |->
                      Sg(abs, HDiv(HMul(HMul(a[p[1]], b[p[2]]), h.c[p[1] + p[2]]), HMul(h.m[p[1]], h.m[p[2]])))]))
Names == <<"Hm0", "Tm01", "Tm02", "Tm24", "Tm_10", "Tp", "Ss", "Sp", "Ka", "Rs", "Tp1", "Alpha", "Eps2", "Eps4", "Qp">>
ArgMax(s) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : HLe(s[j], s[i])) /\ \A j \in 1..(i - 1) : HLt(s[j], s[i])
Interp(x, w, s) == LET n == Len(w) IN
    IF HLe(x, w[1]) THEN s[1] ELSE IF HLe(w[n], x) THEN s[n]
    ELSE LET i == CHOOSE i \in 1..(n - 1) : HLe(w[i], x) /\ HLt(x, w[i + 1])
         IN  HAdd(s[i], HMul(HSub(s[i + 1], s[i]), HDiv(HSub(x, w[i]), HSub(w[i + 1], w[i]))))
Char(name, w, s, h, g) ==
    LET m == h.m  wt == Simpson(w)
        Hm0 == HMul("4", HSqrt(m[0]))  Tm02 == HSqrt(HDiv(m[0], m[2]))
        Tp == HDiv(TwoPi, w[ArgMax(s)])
        al == HDiv(m[2], HSqrt(HMul(m[0], m[4])))
    IN  CASE name = "Hm0" -> Hm0
          [] name = "Tm01" -> HDiv(m[0], m[1])
          [] name = "Tm02" -> Tm02
          [] name = "Tm24" -> HSqrt(HDiv(m[2], m[4]))
          [] name = "Tm_10" -> HDiv(m[-1], m[0])
          [] name = "Tp" -> Tp
          [] name = "Ss" -> HDiv(HMul(TwoPi, Hm0), HMul(g, HMul(Tm02, Tm02)))
          [] name = "Sp" -> HDiv(HMul(TwoPi, Hm0), HMul(g, HMul(Tp, Tp)))
          [] name = "Ka" -> HDiv(HSqrt(HAdd(HPow(HSum([i \in 1..Len(w) |-> HMul(wt[i], HMul(s[i], HCos(HMul(w[i], Tm02))))]), 2),
                                            HPow(HSum([i \in 1..Len(w) |-> HMul(wt[i], HMul(s[i], HSin(HMul(w[i], Tm02))))]), 2))), m[0])
          [] name = "Rs" -> HDiv(HSum([i \in 1..3 |-> Interp(HMul(<<"0.0146", "0.0195", "0.0244">>[i], TwoPi), w, s)]), HMul("3", s[ArgMax(s)]))
          [] name = "Tp1" -> HDiv(HMul(TwoPi, Mom(w, s, wt, 0, 4)), Mom(w, s, wt, 1, 4))
          [] name = "Alpha" -> al
          [] name = "Eps2" -> HSqrt(HMax("0", HSub(HDiv(HMul(m[0], m[2]), HMul(m[1], m[1])), "1")))
          [] name = "Eps4" -> HSqrt(HMax("0", HSub("1", HMul(al, al))))
          [] name = "Qp" -> HDiv(HMul("2", Mom(w, s, wt, 1, 2)), HMul(m[0], m[0]))
\* asymptotic variance; "nan" where no expression is offered
Var(name, h, g, abs) ==
    LET m == h.m  al == HDiv(m[2], HSqrt(HMul(m[0], m[4])))  q == HDiv(HMul(m[0], m[2]), HMul(m[1], m[1]))
        Sq(v) == HMul(v, v)
    IN  CASE name = "Hm0" -> HMul(HMul("16", m[0]), RelCov(Exps.Hm0, Exps.Hm0, h, abs))
          [] name = "Tm01" -> HMul(Sq(HDiv(m[0], m[1])), RelCov(Exps.Tm01, Exps.Tm01, h, abs))
          [] name = "Tm02" -> HMul(HDiv(m[0], m[2]), RelCov(Exps.Tm02, Exps.Tm02, h, abs))
          [] name = "Tm24" -> HMul(HDiv(m[2], m[4]), RelCov(Exps.Tm24, Exps.Tm24, h, abs))
          [] name = "Tm_10" -> HMul(Sq(HDiv(m[-1], m[0])), RelCov(Exps.Tm_10, Exps.Tm_10, h, abs))
          [] name = "Ss" -> HMul(HMul(Sq(HDiv(HMul("8", HPi), g)), HDiv(Sq(m[2]), m[0])), RelCov(Exps.Ss, Exps.Ss, h, abs))
          [] name = "Alpha" -> HMul(Sq(al), RelCov(Exps.Alpha, Exps.Alpha, h, abs))
          [] name = "Eps2" -> HDiv(HMul(Sq(q), RelCov(Exps.Q, Exps.Q, h, abs)), HMul("4", HSub(q, "1")))
          [] name = "Eps4" -> HDiv(HMul(Sq(Sq(al)), RelCov(Exps.Alpha, Exps.Alpha, h, abs)), HSub("1", Sq(al)))
          [] OTHER -> "nan"
Cov(a, b, w, s, h, g, abs) == HMul(HMul(Char(a, w, s, h, g), Char(b, w, s, h, g)), RelCov(Exps[a], Exps[b], h, abs))
\* two dimensional moments: k1^a k2^b w^c with k = w^2/g in direction th - phi; wt weights over w, tt over th; d[j][i] direction j, frequency i
Mom2(w, th, d, wt, tt, a, b, c, gx, gy) ==
    HSum([i \in 1..Len(w) |-> HMul(HMul(wt[i], HMul(HPow(HDiv(HMul(w[i], w[i]), gx), a), HMul(HPow(HDiv(HMul(w[i], w[i]), gy), b), HPow(w[i], c)))),
          HSum([j \in 1..Len(th) |-> HMul(HMul(tt[j], d[j][i]), HMul(HPow(HCos(th[j]), a), HPow(HSin(th[j]), b)))]))])
\* quadratic transfer functions in infinite depth, k = w^2/g
QS(w1, w2, g) == HDiv(HAdd(HMul(w1, w1), HMul(w2, w2)), HMul("4", g))
QD(w1, w2, g) == HNeg(HDiv(HAbs(HSub(HMul(w1, w1), HMul(w2, w2))), HMul("4", g)))
\* grid extended with zeros one step outside
Padded(w, s, wn) ==
    LET n == Len(w)  ds == [i \in 1..(n - 1) |-> HSub(w[i + 1], w[i])]
        dw == ds[CHOOSE i \in 1..(n - 1) : \A j \in 1..(n - 1) : HLe(ds[i], ds[j])]
        up == HSub(wn, w[n])
        hi == IF ~HLt("0", up) THEN <<>> ELSE IF HLt(dw, up) THEN <<HAdd(w[n], dw), wn>> ELSE <<wn>>
        lo == IF ~HLt("0", w[1]) THEN <<>> ELSE IF HLt(dw, w[1]) THEN <<"0", HSub(w[1], dw)>> ELSE <<"0">>
    IN  [w |-> lo \o w \o hi, s |-> [i \in 1..Len(lo) |-> "0"] \o s \o [i \in 1..Len(hi) |-> "0"]]
=============================================================================
