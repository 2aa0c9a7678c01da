------------------------------ MODULE CovModel ------------------------------
(* Covariance estimate of every short integer record, values added one by    *)
(* one; 9 stands for a missing value.  The estimate is a fraction: the sums  *)
(* of products of the centred data (times the count) over count^3.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Vals
VARIABLES x, done
vars == <<x, done>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Got(s) == SelectSeq(s, LAMBDA v : v # 9)
Count(s) == Len(Got(s))
Y(s) == LET c == Count(s)  t == SumSeq(Got(s)) IN [i \in 1..Len(s) |-> IF s[i] = 9 THEN 0 ELSE c * s[i] - t]
Num(s, k) == LET y == Y(s) IN SumSeq([i \in 1..(Len(s) - k) |-> y[i] * y[i + k]])
Nums(s) == [k \in 1..Len(s) |-> Num(s, k - 1)]
Init == x = <<>> /\ done = FALSE
Next == \/ Len(x) < N /\ done' = FALSE /\ \E v \in Vals : x' = Append(x, v)
        \/ Len(x) = N /\ ~done /\ Count(x) > 0 /\ done' = TRUE /\ x' = x
           /\ PrintT(ToJson([x |-> x, c |-> Count(x), num |-> Nums(x)]))
Spec == Init /\ [][Next]_vars
\* the estimate is a covariance function: largest at zero, sum over all lags a square
PositiveDefinite == Count(x) > 0 => /\ \A k \in 1..Len(x) : Num(x, k - 1) <= Num(x, 0) /\ -Num(x, k - 1) <= Num(x, 0)
                                    /\ Num(x, 0) + 2 * SumSeq(Tail(Nums(x))) = 0    \* centred
                                    /\ Num(x, 0) >= 0
=============================================================================
