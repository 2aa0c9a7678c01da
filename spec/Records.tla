------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* Records and the containers that hold them: moving averages, spurious    *)
(* points, Fourier coefficients, peaks, discretization, bins, ship data,   *)
(* and the piecewise linear function through the points of a container.    *)
(* Sequences are indexed from 1, positions are given from 0 as in the code.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, HPReal

\* ---- moving average: the mean of the window, moved inside at the ends
Clamp(i, L, n) == IF i < L + 1 THEN L + 1 ELSE IF i > n - L THEN n - L ELSE i
MovAvg(x, L) == LET n == Len(x) IN [i \in 1..n |-> IF n < 2 * L + 1 THEN HMean(x) ELSE HMean(SubSeq(x, Clamp(i, L, n) - L, Clamp(i, L, n) + L))]

\* what is computed instead of it inside a longer record: steps of 2L differences from the first window (finding F30a)
RECURSIVE Drift(_, _, _)
Drift(x, L, i) == IF i <= L + 1 THEN HMean(SubSeq(x, 1, 2 * L + 1)) ELSE HAdd(Drift(x, L, i - 1), HDiv(HSub(x[i + L], x[i - L]), HReal(2 * L)))
Drifting(x, L) == LET n == Len(x) IN [i \in 1..n |-> IF n < 2 * L + 1 THEN HMean(x) ELSE Drift(x, L, Clamp(i, L, n))]

\* ---- spurious points, by the differences dx (first) and ddx (second)
Jumps(dx, d) == {k \in 1..Len(dx) : HLt(d, dx[k])} \cup {k - 1 : k \in {q \in 1..Len(dx) : HLt(dx[q], HNeg(d))}}
EqualPairs(dx, z) == {k \in 1..Len(dx) : HLe(HAbs(dx[k]), z)}
Equals(dx, z) == {k - 1 : k \in EqualPairs(dx, z)} \cup EqualPairs(dx, z)
Beside(S, n) == {k \in 0..(n - 1) : \E e \in S : k - e \in {-1, 0, 1}}
Diffs(x) == [k \in 1..(Len(x) - 1) |-> HSub(x[k + 1], x[k])]
Spurious(x0, z, d, dd) ==
    LET x == [k \in 1..Len(x0) |-> IF HIsFinite(x0[k]) THEN x0[k] ELSE "0"]   \* a missing value counts as zero
        dx == Diffs(x)
    IN  Jumps(dx, d) \cup Jumps(Diffs(dx), dd) \cup Beside(Equals(dx, z), Len(x))
Spread(x) == LET m == HMean(x) IN HSqrt(HMean([k \in 1..Len(x) |-> HMul(HSub(x[k], m), HSub(x[k], m))]))

\* ---- Fourier coefficients by the trapezoidal rule or Simpson's (equal steps, odd number)
Trapz(y, t) == HSum([k \in 1..(Len(t) - 1) |-> HMul(HDiv(HSub(t[k + 1], t[k]), "2"), HAdd(y[k], y[k + 1]))])
Simpson(y, t) == HMul(HDiv(HSub(t[2], t[1]), "3"), HSum([k \in 1..Len(y) |-> HMul(IF k \in {1, Len(y)} THEN "1" ELSE IF k % 2 = 0 THEN "4" ELSE "2", y[k])]))
Coefficient(x, t, period, i, kind, rule) ==
    LET w(k) == HDiv(HMul(HReal(2 * i), HMul(HPi, t[k])), period)
        y == [k \in 1..Len(x) |-> HMul(x[k], IF kind = "cos" THEN HCos(w(k)) ELSE HSin(w(k)))]
    IN  HDiv(HMul("2", IF rule = "trapz" THEN Trapz(y, t) ELSE Simpson(y, t)), period)

\* ---- peaks: rows of numbers, positions <<row, column>> from 0
RowPeaks(r) == {k \in 2..(Len(r) - 1) : HLt(r[k - 1], r[k]) /\ HLt(r[k + 1], r[k])}
Loose(r) == {Len(r)} \cup {k \in 1..Len(r) : \A q \in 1..Len(r) : HLe(r[q], r[k])}   \* the end of a rising record, or the largest value
Above(M, i, j) == /\ i = 1 \/ HLt(M[i - 1][j], M[i][j])
                  /\ i = Len(M) \/ HLt(M[i + 1][j], M[i][j])
MustPeak(M) == UNION {{<<i, j>> : j \in {q \in RowPeaks(M[i]) : Above(M, i, q)}} : i \in 1..Len(M)}
MayPeak(M) == UNION {{<<i, j>> : j \in {q \in RowPeaks(M[i]) \cup Loose(M[i]) : Above(M, i, q)}} : i \in 1..Len(M)}

\* ---- discretization by halving; f(x) = (c0 + c1 x + c2 x^2) / (1 + e x^2)
F(c, x) == HDiv(HAdd(c[1], HMul(x, HAdd(c[2], HMul(c[3], x)))), HAdd("1", HMul(c[4], HMul(x, x))))
Even(a, b, n) == [k \in 1..n |-> HAdd(a, HMul(HSub(b, a), HFrac(k - 1, n - 1)))]
RECURSIVE Largest(_)
Largest(s) == IF Len(s) = 1 THEN s[1] ELSE HMax(Largest(SubSeq(s, 1, Len(s) \div 2)), Largest(SubSeq(s, (Len(s) \div 2) + 1, Len(s))))
\* the largest relative error of the line between neighbours at their midpoint
LevelError(c, a, b, n, tol) ==
    LET x == TLCEval(Even(a, b, (2 * n) - 1))
        y == TLCEval([k \in 1..Len(x) |-> F(c, x[k])])
        off(k) == LET p == HDiv(HAdd(y[(2 * k) - 1], y[(2 * k) + 1]), "2")
                      q == y[2 * k]
                  IN  HDiv(HAbs(HSub(p, q)), HAdd(HAdd(HAbs(p), HAbs(q)), tol))
    IN  HDiv(Largest(TLCEval([k \in 1..(n - 1) |-> off(k)])), "2")
\* halve until the error is small, or has stopped to change five times; the number of points at the end
RECURSIVE Halve(_, _, _, _, _, _, _)
Halve(c, a, b, n, tol, err, tries) ==
    IF tries >= 5 \/ HLe(err, tol) THEN n
    ELSE LET e == TLCEval(LevelError(c, a, b, n, tol))
         IN  Halve(c, a, b, (2 * n) - 1, tol, e, tries + (IF HLe(HAbs(HSub(e, err)), HDiv(tol, "2")) THEN 1 ELSE 0))
Points(c, a, b, n, tol) == Halve(c, a, b, n, tol, "10000", 0)

\* ---- the piecewise linear function through (x[k], y[k])
Cell(x, t) == CHOOSE k \in 1..(Len(x) - 1) : HLe(x[k], t) /\ HLe(t, x[k + 1])
Inside(x, t) == HLe(x[1], t) /\ HLe(t, x[Len(x)])
Line(x, y, t) == LET k == Cell(x, t) IN HAdd(y[k], HMul(HSub(y[k + 1], y[k]), HDiv(HSub(t, x[k]), HSub(x[k + 1], x[k]))))
Cumulative(x, y, k) == IF k = 1 THEN "0" ELSE Trapz(SubSeq(y, 1, k), SubSeq(x, 1, k))
Until(x, y, t) == LET k == Cell(x, t) IN HAdd(Cumulative(x, y, k), HMul(HDiv(HSub(t, x[k]), "2"), HAdd(y[k], Line(x, y, t))))
Area(x, y, a, b) == HSub(Until(x, y, b), Until(x, y, a))

\* ---- on a grid: one of the two ways to halve the cell; M[i][j] at <<x[j], y[i]>>
TwoWays(x, y, M, s, t) ==
    LET j == Cell(x, s)  i == Cell(y, t)
        u == HDiv(HSub(s, x[j]), HSub(x[j + 1], x[j]))  v == HDiv(HSub(t, y[i]), HSub(y[i + 1], y[i]))
        A == M[i][j]  B == M[i][j + 1]  C == M[i + 1][j]  D == M[i + 1][j + 1]
        lin(p, du, dv) == HAdd(p, HAdd(HMul(u, du), HMul(v, dv)))
        \* diagonal from A to D
        one == IF HLe(v, u) THEN lin(A, HSub(B, A), HSub(D, B)) ELSE lin(A, HSub(D, C), HSub(C, A))
        \* diagonal from B to C
        two == IF HLe(HAdd(u, v), "1") THEN lin(A, HSub(B, A), HSub(C, A))
               ELSE HAdd(D, HAdd(HMul(HSub("1", u), HSub(C, D)), HMul(HSub("1", v), HSub(B, D))))
    IN  {one, two}

\* ---- what a plot draws, and the scale of its axes
Drawn(id, x, y, k) ==
    LET c == Cumulative(x, y, k) IN
    CASE id = 0 -> y[k] [] id = 1 -> HSub("1", y[k]) [] id = 2 -> c [] id = 3 -> HSub("1", c) [] id = 4 -> HLog(y[k]) [] id = 5 -> HLog(HSub("1", y[k]))
      [] id = 6 -> (IF HLe(c, "0") THEN "-inf" ELSE HLog(c)) [] id = 7 -> HLog(HSub("1", c)) [] id = 8 -> HMul("10", HDiv(HLog(y[k]), HLog("10")))
\* up to 7 the hundreds are bits for x, y and z, beyond that decimal digits
LogX(flag) == LET s == flag \div 100 IN IF s > 7 THEN s % 10 > 0 ELSE s % 2 = 1
LogY(flag) == LET s == flag \div 100 IN IF s > 7 THEN (s \div 10) % 10 > 0 ELSE (s \div 2) % 2 = 1

\* ---- ship characteristics from the deadweight
Length(dw) == HMul("3.45", HRPow(dw, "0.4"))
Beam(dw) == HMul("1.78", HRPow(dw, "0.27"))
Draught(dw) == HMul("0.8", HRPow(dw, "0.24"))
Speed(dw) == HMul("1.14", HRPow(dw, "0.21"))
Deadweight(name, v) ==
    CASE name = "max_deadweight" -> v [] name = "length" -> HRPow(HDiv(v, "3.45"), "2.5") [] name = "beam" -> HRPow(HDiv(v, "1.78"), HDiv("1", "0.27"))
      [] name = "draught" -> HRPow(HDiv(v, "0.8"), HDiv("1", "0.24")) [] name = "service_speed" -> HRPow(HDiv(v, "1.14"), HDiv("1", "0.21"))
      [] name = "propeller_diameter" -> HRPow(HDiv(HRPow(HDiv(v, "0.12"), HDiv("4", "3")), "3.45"), "2.5")
=============================================================================
