------------------------------- MODULE Turning ------------------------------
(***************************************************************************)
(* Turning points, rainflow cycles, rainflow filters and troughs/crests of *)
(* integer sequences.  Pure definitions; the models that explore them are  *)
(* TurningModel and AstmModel.  All returned indices are 0-based.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
X == INSTANCE Crossing WITH MaxLen <- 0, inp <- <<>>, side <- 0, out <- <<>>, done <- FALSE

At(x, i) == x[i + 1]                         \* 0-based access
Range0(n) == [i \in 1..n |-> i - 1]
Diff(x) == [i \in 1..(Len(x) - 1) |-> x[i + 1] - x[i]]
Pick(x, ind) == [k \in 1..Len(ind) |-> x[ind[k] + 1]]

(* -------------------- extrema and turning points ----------------------- *)
\* the last sample of every stretch after which the direction of motion changes
Extrema(x) == IF Len(x) < 2 THEN <<>>
              ELSE LET c == X!CrossIdx(X!SignSeq(Diff(x), 0))
                   IN  [k \in 1..Len(c) |-> c[k] + 1]

(* -------------------- rainflow cycles ---------------------------------- *)
\* y starts with a minimum; the k-th maximum is at 0-based index 2k+1
RECURSIVE LeftMin(_, _, _, _)
\* walk left from maximum k over lower (or equal) maxima; best = index of lowest minimum so far
LeftMin(y, k, j, best) ==
    IF j < 0 \/ At(y, 2*j + 1) > At(y, 2*k + 1) THEN best
    ELSE LeftMin(y, k, j - 1, IF At(y, 2*j) < At(y, best) THEN 2*j ELSE best)
NC(y) == Len(y) \div 2
RECURSIVE RightMin(_, _, _, _)
\* walk right over strictly lower maxima; <<>> when the signal never gets back to that height
RightMin(y, k, j, best) ==
    IF j >= NC(y) THEN <<>>
    ELSE IF At(y, 2*j + 1) >= At(y, 2*k + 1) THEN <<best>>
    ELSE IF 2*j + 2 >= Len(y) THEN <<>>
    ELSE RightMin(y, k, j + 1, IF At(y, 2*j + 2) <= At(y, best) THEN 2*j + 2 ELSE best)
\* the rainflow minimum attached to maximum k
Partner(y, k) ==
    LET a == LeftMin(y, k, k - 1, 2*k)
        b == IF 2*k + 2 >= Len(y) THEN <<>> ELSE RightMin(y, k, k + 1, 2*k + 2)
    IN  IF b = <<>> \/ At(y, b[1]) <= At(y, a) THEN a ELSE b[1]
RfcHeight(y, k) == At(y, 2*k + 1) - At(y, Partner(y, k))

RECURSIVE RfcCollect(_, _, _)
RfcCollect(y, h, k) ==
    IF k >= NC(y) THEN <<>>
    ELSE (IF RfcHeight(y, k) >= h THEN <<Partner(y, k), 2*k + 1>> ELSE <<>>) \o RfcCollect(y, h, k + 1)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)

NotTurning(y) == /\ Len(y) > 2
                 /\ \/ (y[1] > y[2] /\ y[2] > y[3])
                    \/ (y[1] < y[2] /\ y[2] < y[3])
SkipMax(tp) == IF Len(tp) > 1 /\ tp[1] > tp[2] THEN 1 ELSE 0
\* indices of the turning points that belong to a rainflow cycle of height >= h
FindRfc(tp, h) ==
    LET s == SkipMax(tp)
        y == SubSeq(tp, s + 1, Len(tp))
    IN  IF NC(y) < 1 \/ NotTurning(y) THEN <<>>
        ELSE LET c == Sorted(RfcCollect(y, h, 0)) IN [i \in 1..Len(c) |-> c[i] + s]

(* -------------------- hysteresis (rainflow) filter --------------------- *)
\* strict = FALSE keeps swings >= h, strict = TRUE keeps swings > h
Leq(a, b, strict) == IF strict THEN a < b ELSE a <= b
Lst(a, b, strict) == IF strict THEN a <= b ELSE a < b
RECURSIVE Hyst(_, _, _, _, _, _, _)
Hyst(y, h, strict, i, t0, z0, acc) ==
    IF i >= Len(y)
    THEN LET gap == At(y, t0) - At(y, acc[Len(acc)])
             a == IF gap < 0 THEN -gap ELSE gap
         IN  IF Lst(h, a, strict) THEN Append(acc, t0) ELSE acc
    ELSE LET y0 == At(y, t0)  yi == At(y, i)
             z1 == IF z0 = 0 THEN IF Leq(yi, y0 - h, strict) THEN -1
                                  ELSE IF Leq(y0 + h, yi, strict) THEN 1 ELSE 0
                   ELSE IF z0 = 1 THEN IF Leq(yi, y0 - h, strict) THEN -1 ELSE 1
                   ELSE IF Leq(y0 + h, yi, strict) THEN 1 ELSE -1
             t1 == IF z0 = 0 THEN IF z1 = 0 THEN t0 ELSE i
                   ELSE IF z1 # z0 THEN i
                   ELSE IF z1 = -1 THEN IF y0 < yi THEN t0 ELSE i
                   ELSE IF y0 > yi THEN t0 ELSE i
             acc1 == IF z0 * z1 = -1 THEN Append(acc, t0) ELSE acc
         IN  Hyst(y, h, strict, i + 1, t1, z1, acc1)
RfcFilterIdx(y, h, strict) == Hyst(y, h, strict, 1, 0, 0, <<0>>)
\* findrfc with the filter methods drops a leading maximum first
FindRfcM(tp, h, strict) ==
    LET s == SkipMax(tp)
        y == SubSeq(tp, s + 1, Len(tp))
    IN  IF NC(y) < 1 \/ NotTurning(y) THEN <<>>
        ELSE LET c == RfcFilterIdx(y, h, strict) IN [i \in 1..Len(c) |-> c[i] + s]

(* -------------------- turning points of a signal ----------------------- *)
TpAll(x, kind) ==
    LET e == Extrema(x)
        n == Len(x)
    IN  IF kind = "astm" \/ At(x, e[1]) > At(x, e[2]) THEN <<0>> \o e \o <<n - 1>>
        ELSE e \o <<n - 1>>
\* None is returned when the signal has fewer than two extrema
HasTp(x) == Len(Extrema(x)) >= 2
WaveTp(x, ind, kind) ==
    IF Len(ind) < 2 THEN <<>>
    ELSE LET firstmax == At(x, ind[1]) > At(x, ind[2])
             a == IF firstmax # (kind = "Mw") THEN SubSeq(ind, 2, Len(ind)) ELSE ind
         IN  IF Len(a) % 2 = 1 THEN a ELSE SubSeq(a, 1, Len(a) - 1)
FindTp(x, h, kind) ==
    LET a == TpAll(x, kind)
        r == FindRfc(Pick(x, a), h)
        b == IF h > 0 THEN [k \in 1..Len(r) |-> a[r[k] + 1]] ELSE a
    IN  IF kind \in {"mw", "Mw"} THEN WaveTp(x, b, kind) ELSE b

(* -------------------- troughs and crests ------------------------------- *)
\* first index of the smallest / largest sample in lo..hi (0-based)
ArgMin(x, lo, hi) == CHOOSE i \in lo..hi : /\ \A j \in lo..hi : At(x, i) <= At(x, j)
                                          /\ \A j \in lo..(i - 1) : At(x, j) # At(x, i)
ArgMax(x, lo, hi) == CHOOSE i \in lo..hi : /\ \A j \in lo..hi : At(x, i) >= At(x, j)
                                          /\ \A j \in lo..(i - 1) : At(x, j) # At(x, i)
\* one trough or crest between each pair of consecutive level crossings c
TroughCrest(x, v, c) ==
    [k \in 1..(Len(c) - 1) |->
        IF At(x, c[k] + 1) < v THEN ArgMin(x, c[k] + 1, c[k + 1])
        ELSE ArgMax(x, c[k] + 1, c[k + 1])]

(* -------------------- ASTM rainflow counting --------------------------- *)
Abs(a) == IF a < 0 THEN -a ELSE a
\* stack machine over the turning points; rows are <<range, sum, halves, begin, end>>
\* (amplitude = range/2, mean = sum/2, halves = 1 half cycle or 2 full cycle,
\*  begin/end = indices of the two turning points)
RECURSIVE AReduce(_, _, _)
AReduce(y, stk, rows) ==
    LET n == Len(stk) IN
    IF n < 3 THEN <<stk, rows>>
    ELSE LET p == At(y, stk[n - 2])  q == At(y, stk[n - 1])  r == At(y, stk[n])
         IN  IF Abs(q - p) > Abs(r - q) THEN <<stk, rows>>
             ELSE LET row == <<Abs(q - p), q + p, IF n = 3 THEN 1 ELSE 2, stk[n - 2], stk[n - 1]>>
                      rows1 == IF Abs(q - p) > 0 THEN Append(rows, row) ELSE rows
                  IN  IF n = 3 THEN AReduce(y, SubSeq(stk, 2, 3), rows1)
                      ELSE AReduce(y, Append(SubSeq(stk, 1, n - 3), stk[n]), rows1)
RECURSIVE APush(_, _, _, _)
APush(y, i, stk, rows) ==
    IF i >= Len(y) THEN <<stk, rows>>
    ELSE LET z == AReduce(y, Append(stk, i), rows) IN APush(y, i + 1, z[1], z[2])
RECURSIVE ADrain(_, _, _)
ADrain(y, stk, rows) ==
    IF Len(stk) < 2 THEN rows
    ELSE LET p == At(y, stk[1])  q == At(y, stk[2])
         IN  ADrain(y, Tail(stk), IF p = q THEN rows
                                  ELSE Append(rows, <<Abs(q - p), q + p, 1, stk[1], stk[2]>>))
Astm(y) == LET z == APush(y, 0, <<>>, <<>>) IN ADrain(y, z[1], z[2])

Alternating(y) == \A i \in 1..(Len(y) - 2) : (y[i + 1] - y[i]) * (y[i + 2] - y[i + 1]) < 0
RECURSIVE TotVar(_, _)
TotVar(y, i) == IF i >= Len(y) THEN 0 ELSE Abs(y[i + 1] - y[i]) + TotVar(y, i + 1)
RECURSIVE SumRows(_, _)
SumRows(rows, i) == IF i > Len(rows) THEN 0 ELSE rows[i][1] * rows[i][3] + SumRows(rows, i + 1)
RECURSIVE SumHalves(_, _)
SumHalves(rows, i) == IF i > Len(rows) THEN 0 ELSE rows[i][3] + SumHalves(rows, i + 1)
SetMax(S) == CHOOSE a \in S : \A b \in S : b <= a
SetMin(S) == CHOOSE a \in S : \A b \in S : b >= a
=============================================================================
