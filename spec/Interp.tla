------------------------------- MODULE Interp -------------------------------
(* Slopes, Hermite and Stineman interpolation, piecewise polynomials and     *)
(* smoothing splines.                                                        *)
EXTENDS Filters, Stineman
Sgn(v) == IF HLt("0", v) THEN 1 ELSE IF HLt(v, "0") THEN -1 ELSE 0
H2(v) == HMul("2", v)
\* three-point weighted mean of the secants next to point k
Para(x, y, k) == LET a == Dx(x, k - 1)  b == Dx(x, k) IN HDiv(HAdd(HMul(Sec(x, y, k - 1), b), HMul(Sec(x, y, k), a)), HAdd(a, b))
CatS(x, y, k) == LET n == Len(x) IN IF k = 1 THEN Sec(x, y, 1) ELSE IF k = n THEN Sec(x, y, n - 1) ELSE HDiv(HSub(y[k + 1], y[k - 1]), HSub(x[k + 1], x[k - 1]))
PchipIn(x, y, k) ==
    LET p == Sec(x, y, k - 1)  q == Sec(x, y, k)  a == Dx(x, k - 1)  b == Dx(x, k)
        w1 == HAdd(H2(b), a)  w2 == HAdd(b, H2(a))
    IN  IF Sgn(p) * Sgn(q) <= 0 THEN "0" ELSE HDiv(HAdd(w1, w2), HAdd(HDiv(w1, p), HDiv(w2, q)))
PchipEnd(h0, h1, m0, m1) ==
    LET d == HDiv(HSub(HMul(HAdd(H2(h0), h1), m0), HMul(h0, m1)), HAdd(h0, h1))
    IN  IF Sgn(d) # Sgn(m0) THEN "0" ELSE IF Sgn(m0) # Sgn(m1) /\ HLt(HMul("3", HAbs(m0)), HAbs(d)) THEN HMul("3", m0) ELSE d
SteffenIn(x, y, k) ==
    LET p == Sec(x, y, k - 1)  q == Sec(x, y, k)
    IN  HMul(HReal(Sgn(p) + Sgn(q)), HMin(HMin(HAbs(p), HAbs(q)), HDiv(HAbs(Para(x, y, k)), "2")))
SteffenEnd(h0, h1, m0, m1) ==
    LET w == HDiv(h0, HAdd(h0, h1))  p == HSub(HMul(m0, HAdd("1", w)), HMul(m1, w))
    IN  HMul(HReal(Sgn(p) + Sgn(m0)), HMin(HAbs(m0), HDiv(HAbs(p), "2")))
Akima(x, y) ==
    LET n == Len(x)
        s == TLCEval([i \in 1..n - 1 |-> Sec(x, y, i)])
        m1 == HSub(H2(s[1]), s[2])  m0 == HSub(H2(m1), s[1])
        p1 == HSub(H2(s[n - 1]), s[n - 2])  p2 == HSub(H2(p1), s[n - 1])
        m == TLCEval(<<m0, m1>> \o s \o <<p1, p2>>)
        dm == TLCEval([i \in 1..n + 2 |-> HAbs(HSub(m[i + 1], m[i]))])
        f == TLCEval([k \in 1..n |-> HAdd(dm[k], dm[k + 2])])
        big == CHOOSE v \in {f[k] : k \in 1..n} : \A k \in 1..n : HLe(f[k], v)
    IN  TLCEval([k \in 1..n |-> IF HLt(HMul("1e-9", big), f[k]) THEN HDiv(HAdd(HMul(dm[k + 2], m[k + 1]), HMul(dm[k], m[k + 2])), f[k]) ELSE HDiv(HAdd(m[k], m[k + 3]), "2")])
Slopes(x, y, method, tension) ==
    LET n == Len(x)
        E1(v) == HSub(H2(Sec(x, y, 1)), v)  En(v) == HSub(H2(Sec(x, y, n - 1)), v)
        Ends(in) == [k \in 1..n |-> IF k = 1 THEN E1(in[2]) ELSE IF k = n THEN En(in[n - 1]) ELSE in[k]]
        pin == TLCEval([k \in 2..n - 1 |-> IF method \in {"pchip", "fritsch-carlson"} THEN PchipIn(x, y, k) ELSE IF method = "parabola" THEN Para(x, y, k) ELSE SteffenIn(x, y, k)])
        F(e(_, _, _, _)) == [k \in 1..n |-> IF k = 1 THEN e(Dx(x, 1), Dx(x, 2), Sec(x, y, 1), Sec(x, y, 2))
                                            ELSE IF k = n THEN e(Dx(x, n - 1), Dx(x, n - 2), Sec(x, y, n - 1), Sec(x, y, n - 2)) ELSE pin[k]]
    IN  CASE method = "catmull-rom" -> [k \in 1..n |-> CatS(x, y, k)]
          [] method = "cardinal" -> [k \in 1..n |-> HMul(HSub("1", tension), CatS(x, y, k))]
          [] n = 2 -> <<Sec(x, y, 1), Sec(x, y, 1)>>
          [] method = "secant" -> [k \in 1..n |-> IF k = 1 THEN Sec(x, y, 1) ELSE IF k = n THEN Sec(x, y, n - 1) ELSE HDiv(HAdd(Sec(x, y, k - 1), Sec(x, y, k)), "2")]
          [] method \in {"parabola", "fritsch-carlson"} -> Ends(pin)
          [] method = "pchip" -> F(PchipEnd)
          [] method = "steffen" -> F(SteffenEnd)
          [] method = "stineman" -> StSlopes(x, y)
          [] method = "akima" -> Akima(x, y)
MaxH(v) == CHOOSE a \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : HLe(v[i], a)
MinH(v) == CHOOSE a \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : HLe(a, v[i])
ScaledSlopes(x, y, method, tension) ==
    LET sx == HSub(MaxH(x), MinH(x))  sy0 == HSub(MaxH(y), MinH(y))  sy == IF HEq(sy0, "0") THEN "1" ELSE sy0
        yp == Slopes(TLCEval([i \in 1..Len(x) |-> HDiv(x[i], sx)]), TLCEval([i \in 1..Len(y) |-> HDiv(y[i], sy)]), method, tension)
    IN  [k \in 1..Len(x) |-> HDiv(HMul(yp[k], sy), sx)]
Seg(x, t) == LET n == Len(x) IN CHOOSE i \in 1..n - 1 : (HLe(x[i], t) \/ i = 1) /\ (HLt(t, x[i + 1]) \/ i = n - 1)
Hermite(x, y, yp, t) ==
    LET i == Seg(x, t)  h == Dx(x, i)  u == HDiv(HSub(t, x[i]), h)  v == HSub("1", u)
    IN  HSum(<<HMul(y[i], HMul(HAdd("1", H2(u)), HPow(v, 2))), HMul(HMul(h, yp[i]), HMul(u, HPow(v, 2))),
              HMul(y[i + 1], HMul(HPow(u, 2), HSub("3", H2(u)))), HNeg(HMul(HMul(h, yp[i + 1]), HMul(HPow(u, 2), v)))>>)
StInterp(x, y, yp, t) == StVal(x, y, yp, Seg(x, t), t)
\* piecewise polynomials: c[m][i], highest power first
RECURSIVE Horner(_, _, _, _)
Horner(c, i, u, m) == IF m = 1 THEN c[1][i] ELSE HAdd(HMul(Horner(c, i, u, m - 1), u), c[m][i])
PPAt(c, b, t) == LET i == Seg(b, t) IN Horner(c, i, HSub(t, b[i]), Len(c))
PPD(c) == LET k == Len(c) IN IF k = 1 THEN <<[i \in 1..Len(c[1]) |-> "0"]>> ELSE TLCEval([m \in 1..k - 1 |-> [i \in 1..Len(c[1]) |-> HMul(HReal(k - m), c[m][i])]])
\* integral from the first break
RECURSIVE PPI(_, _, _, _)
PieceInt(c, i, u) == HSum([m \in 1..Len(c) |-> HDiv(HMul(c[m][i], HPow(u, Len(c) - m + 1)), HReal(Len(c) - m + 1))])
PPI(c, b, i, t) == IF i = 1 THEN PieceInt(c, 1, HSub(t, b[1])) ELSE HAdd(PPI(c, b, i - 1, b[i]), PieceInt(c, i, HSub(t, b[i])))
PPInt(c, b, t) == PPI(c, b, Seg(b, t), t)
\* value, first and second derivative at both ends and the third derivative of the cubic through four points
Cubic(t, f) ==
    LET d1 == [i \in 1..3 |-> HDiv(HSub(f[i + 1], f[i]), HSub(t[i + 1], t[i]))]
        d2 == [i \in 1..2 |-> HDiv(HSub(d1[i + 1], d1[i]), HSub(t[i + 2], t[i]))]
        d3 == HDiv(HSub(d2[2], d2[1]), HSub(t[4], t[1]))
        D(u) == HSum(<<d1[1], HMul(d2[1], HAdd(HSub(u, t[1]), HSub(u, t[2]))),
                       HMul(d3, HSum(<<HMul(HSub(u, t[1]), HSub(u, t[2])), HMul(HSub(u, t[1]), HSub(u, t[3])), HMul(HSub(u, t[2]), HSub(u, t[3]))>>))>>)
        DD(u) == HAdd(H2(d2[1]), HMul(H2(d3), HSum(<<HSub(u, t[1]), HSub(u, t[2]), HSub(u, t[3])>>)))
    IN  [a1 |-> D(t[1]), b1 |-> D(t[4]), a2 |-> DD(t[1]), b2 |-> DD(t[4]), d3 |-> HMul("6", d3)]
\* automatic parameter of the smoothing spline
AutoP(x, var) ==
    LET n == Len(x)
        q == HSum([i \in 1..n - 2 |-> LET a == HDiv("1", Dx(x, i))  b == HDiv("1", Dx(x, i + 1))
                                      IN HSum(<<HMul(var[i], HPow(a, 2)), HMul(var[i + 1], HPow(HAdd(a, b), 2)), HMul(var[i + 2], HPow(b, 2))>>)])
        r == HSum([i \in 1..n - 2 |-> H2(HAdd(Dx(x, i), Dx(x, i + 1)))])
    IN  HDiv("1", HAdd("1", HDiv(q, HMul("100", HPow(r, 2)))))
\* local polynomial surface: coefficients of 1, row, column, ...
Terms(order) == CASE order = 0 -> <<<<0, 0>>>> [] order = 1 -> <<<<0, 0>>, <<1, 0>>, <<0, 1>>>> [] order = 2 -> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, 2>>>>
Surface(z, r, c, n, order) ==
    LET T == Terms(order)  W == 2 * n + 1
        P(q) == IPow(((q - 1) \div W) - n, 1)  Q(q) == ((q - 1) % W) - n
    IN  HSolve([i \in 1..Len(T) |-> [j \in 1..Len(T) |-> HReal(ISum([q \in 1..W * W |-> IPow(P(q), T[i][1] + T[j][1]) * IPow(Q(q), T[i][2] + T[j][2])], W * W))]],
               [i \in 1..Len(T) |-> HSum([q \in 1..W * W |-> HMul(HReal(IPow(P(q), T[i][1]) * IPow(Q(q), T[i][2])), z[r + P(q)][c + Q(q)])])])
\* one-dimensional Savitzky-Golay with the ends reflected through the end point
Pad(y, n) == LET N == Len(y) IN [i \in 1..n |-> HSub(y[1], HAbs(HSub(y[n + 2 - i], y[1])))] \o y \o [i \in 1..n |-> HAdd(y[N], HAbs(HSub(y[N - i], y[N])))]
SG1(y, n, deg, d) == LET p == TLCEval(Pad(y, n)) IN TLCEval([i \in 1..Len(y) |-> Deriv(Fit(SubSeq(p, i, i + 2 * n), n, deg), d, 0, "1")])
=============================================================================
