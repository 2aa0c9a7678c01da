----------------------------- MODULE FilterModel ----------------------------
(* Every short integer record, extended sample by sample, with its local     *)
(* linear fit over three points (in sixths) and its local medians (halves).  *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS MaxLen, Values
VARIABLES y, done
vars == <<y, done>>
Linear == [i \in 1..Len(y) |->
    IF i = 1 THEN 5 * y[1] + 2 * y[2] - y[3]
    ELSE IF i = Len(y) THEN 5 * y[i] + 2 * y[i - 1] - y[i - 2]
    ELSE 2 * (y[i - 1] + y[i] + y[i + 1])]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Med3(a, b, c) == Max(Min(a, b), Min(Max(a, b), c))
Medians == [i \in 1..Len(y) |->
    IF i = 1 THEN y[1] + y[2] ELSE IF i = Len(y) THEN y[i - 1] + y[i] ELSE 2 * Med3(y[i - 1], y[i], y[i + 1])]
Init == y = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(y) < MaxLen /\ (\E v \in Values : y' = Append(y, v)) /\ done' = FALSE
        \/ ~done /\ Len(y) >= 4 /\ done' = TRUE /\ y' = y /\ PrintT(ToJson([y |-> y, lin |-> Linear, med |-> Medians]))
Spec == Init /\ [][Next]_vars
Straight == \A i \in 2..Len(y) - 1 : y[i - 1] + y[i + 1] = 2 * y[i]
LinesKept == Len(y) >= 4 /\ Straight => \A i \in 1..Len(y) : Linear[i] = 6 * y[i]
\* a median lies between the smallest and the largest value of its window and a monotone record keeps its inner values
MonotoneKept == Len(y) >= 4 /\ (\A i \in 1..Len(y) - 1 : y[i] <= y[i + 1]) => \A i \in 2..Len(y) - 1 : Medians[i] = 2 * y[i]
=============================================================================
