-------------------------------- MODULE Cov ---------------------------------
(* Covariance functions: as integrals of spectral densities, back to         *)
(* spectral densities, and estimated from data.  Sequences are 1-based,      *)
(* lag k is element k + 1.                                                   *)
EXTENDS LinAlg
TwoPi == HMul("2", HPi)
AngFreq(x, ft) == IF ft = "f" THEN TLCEval([i \in 1..Len(x) |-> HMul(TwoPi, x[i])]) ELSE x
\* k-th derivative of cos(w t) in t
DCos(w, t, k) ==
    LET a == HMul(w, t) IN
    CASE k % 4 = 0 -> HMul(HPow(w, k), HCos(a))
      [] k % 4 = 1 -> HNeg(HMul(HPow(w, k), HSin(a)))
      [] k % 4 = 2 -> HNeg(HMul(HPow(w, k), HCos(a)))
      [] OTHER -> HMul(HPow(w, k), HSin(a))
\* weights of the trapezoidal rule on an equidistant grid
Trap(x) == LET n == Len(x)  d == HDiv(HSub(x[n], x[1]), HReal(n - 1))
           IN  TLCEval([i \in 1..n |-> IF i \in {1, n} THEN HDiv(d, "2") ELSE d])
\* covariance function (k-th derivative) at lag t of the density s over x
CovAt(x, s, ft, t, k) ==
    LET w == AngFreq(x, ft)  c == Trap(x) IN HSum([i \in 1..Len(x) |-> HMul(HMul(c[i], s[i]), DCos(w[i], t, k))])
CovBound(x, s, ft, k) ==
    LET w == AngFreq(x, ft)  c == Trap(x) IN HSum([i \in 1..Len(x) |-> HMul(HMul(c[i], HAbs(s[i])), HPow(w[i], k))])
RECURSIVE Pow2Ceil(_, _)
Pow2Ceil(n, p) == IF p >= n THEN p ELSE Pow2Ceil(n, 2 * p)
\* density at angular frequency w of covariance r sampled with step dt
DensAt(r, dt, w) ==
    LET n == Len(r) IN
    HMul(HDiv(dt, HPi), HSum([k \in 1..n |-> HMul(IF k \in {1, n} THEN r[k] ELSE HMul("2", r[k]), HCos(HMul(w, HMul(dt, HReal(k - 1)))))]))
\* truncated density over frequencies ws: negative and negligible values are zero
DensOK(v, r, dt, ws, trunc) ==
    LET raw == TLCEval([j \in 1..Len(ws) |-> DensAt(r, dt, ws[j])])
        mx == raw[CHOOSE j \in 1..Len(ws) : \A i \in 1..Len(ws) : HLe(raw[i], raw[j])]
        lim == HMul(trunc, mx)
        eps == HMul("1e-11", HMul(HDiv(dt, HPi), HSum([k \in 1..Len(r) |-> HMul("2", HAbs(r[k]))])))
    IN  Len(v) = Len(ws) /\ \A j \in 1..Len(ws) :
          \/ HLt(raw[j], HAdd(lim, eps)) /\ HEq(v[j], "0")
          \/ HLt(HSub(lim, eps), raw[j]) /\ HClose(v[j], HMax(raw[j], "0"), eps, "0")
---------------------------------------------------------------------------
\* estimation from data; missing data are "nan"
Present(x) == {i \in 1..Len(x) : x[i] # "nan"}
RECURSIVE Keep(_)
Keep(x) == IF x = <<>> THEN <<>> ELSE (IF Head(x) = "nan" THEN <<>> ELSE <<Head(x)>>) \o Keep(Tail(x))
Centred(x) == LET m == HMean(Keep(x)) IN TLCEval([i \in 1..Len(x) |-> IF x[i] = "nan" THEN "0" ELSE HSub(x[i], m)])
Lagged(y, k) == HSum([i \in 1..(Len(y) - k) |-> HMul(y[i], y[i + k])])
\* sample covariances of lag 0..n-1
SampleCov(y, nc, unbiased) ==
    TLCEval([k \in 1..Len(y) |-> HDiv(Lagged(y, k - 1), HReal(IF unbiased THEN nc - k + 1 ELSE nc))])
\* Bartlett's large lag standard deviation of the estimate at lag k = 0, 1, ...
RECURSIVE SigAcc(_, _, _, _, _)
SigAcc(r, k, acc, nc, out) ==
    IF k > Len(r) THEN out
    ELSE LET v == IF k = 1 THEN "0" ELSE IF k = 2 THEN HMul(r[1], r[1]) ELSE HAdd(acc, HMul("2", HMul(r[k - 1], r[k - 1])))
         IN  SigAcc(r, k + 1, v, nc, Append(out, HSqrt(HDiv(v, HReal(nc)))))
Sigma(r, nc) == SigAcc(r, 1, "0", nc, <<>>)
\* lag from which the covariance is not distinguishable from zero
DefaultLag(r, nc) ==
    LET s == Sigma(r, nc)  mx == IF Len(r) - 1 < 300 THEN Len(r) - 1 ELSE 300
        big == {k \in 0..mx : HLt(HMul("2", s[k + 1]), HAbs(r[k + 1]))}
    IN  2 + (CHOOSE k \in big : \A j \in big : j <= k)
Clear(r, nc) ==     \* no comparison within rounding error
    LET s == Sigma(r, nc) IN \A k \in 1..Len(r) : ~HClose(HAbs(r[k]), HMul("2", s[k]), HMul("1e-9", HAbs(r[1])), "0")
=============================================================================
