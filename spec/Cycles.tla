------------------------------- MODULE Cycles -------------------------------
(* Cycle pairs, level crossing spectrum, damage and cycle matrix.           *)
EXTENDS Turning
(* pairs are <<min, max>> *)
\* 0-based indices of the turning points paired as min -> max or max -> min
PairStart(y, kind) == LET firstmax == y[1] > y[2]
                      IN  IF kind = "min2max" THEN IF firstmax THEN 1 ELSE 0
                          ELSE IF firstmax THEN 0 ELSE 1
Pairs(y, kind) ==
    LET s == PairStart(y, kind)
        n == (Len(y) - s) \div 2
    IN  [k \in 1..n |-> LET p == At(y, s + 2*(k - 1))  q == At(y, s + 2*(k - 1) + 1)
                        IN IF kind = "min2max" THEN <<p, q>> ELSE <<q, p>>]
Levels(ps) == SortSeq(SetToSeq({ps[i][1] : i \in 1..Len(ps)} \cup {ps[i][2] : i \in 1..Len(ps)}),
                      LAMBDA a, b : a < b)
CountP(ps, Test(_, _)) == Cardinality({i \in 1..Len(ps) : Test(ps[i][1], ps[i][2])})
\* kind 1: upcrossings; 2: and maxima; 3: and minima and maxima; 4: and minima
CountAt(ps, u, kind) ==
    CASE kind = 1 -> CountP(ps, LAMBDA m, M : m < u /\ u < M)
      [] kind = 2 -> CountP(ps, LAMBDA m, M : m < u /\ u <= M)
      [] kind = 3 -> CountP(ps, LAMBDA m, M : m <= u /\ u <= M)
      [] kind = 4 -> CountP(ps, LAMBDA m, M : m <= u /\ u < M)
Spectrum(ps, kind) ==
    LET lv == Levels(ps)
        n == Len(lv)
    IN  [k \in 1..n |-> CountAt(ps, lv[IF kind = 4 /\ k = n /\ n > 1 THEN n - 1 ELSE k], kind)]
\* number of upcrossings of level u by a sequence of turning points, scanned directly
UpCount(y, u) == Cardinality({i \in 1..(Len(y) - 1) : y[i] < u /\ u < y[i + 1]})

(* cycle matrix: levels a + k*d for k in 0..n-1; pairs given in units with integer d *)
FloorDiv(p, q) == p \div q                   \* TLA+ division rounds down
CeilDiv(p, q) == -((-p) \div q)
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Bin(m, M, a, d, n, ddef) ==
    CASE ddef = 1 -> <<Clip(FloorDiv(m - a, d), 0, n - 2), Clip(CeilDiv(M - a, d), 1, n - 1)>>
      [] ddef = -1 -> <<Clip(CeilDiv(m - a, d), 1, n - 1), Clip(FloorDiv(M - a, d), 0, n - 2)>>
      [] ddef = 0 -> <<Clip(FloorDiv(2*(m - a) + d, 2*d), 0, n - 1), Clip(FloorDiv(2*(M - a) + d, 2*d), 0, n - 1)>>
Matrix(ps, a, d, n, ddef) ==
    LET b == [i \in 1..Len(ps) |-> Bin(ps[i][1], ps[i][2], a, d, n, ddef)]
    IN  [r \in 1..n |-> [c \in 1..n |-> Cardinality({i \in 1..Len(ps) : b[i] = <<r - 1, c - 1>>})]]
=============================================================================
