------------------------------ MODULE AstmModel -----------------------------
(***************************************************************************)
(* The ASTM rainflow counter as a machine: turning points arrive one at a  *)
(* time and are pushed on a stack; as long as the latest range is not      *)
(* smaller than the previous one, the previous one is closed as a full     *)
(* cycle (or as a half cycle when it contains the start of the history).   *)
(* When the history ends the ranges left on the stack are half cycles.     *)
(***************************************************************************)
EXTENDS Turning, TLC, Json
CONSTANTS MaxLen, MaxVal
VARIABLES y, stk, rows, phase       \* phase: "read", "reduce", "drain", "end"
vars == <<y, stk, rows, phase>>
Init == y = <<>> /\ stk = <<>> /\ rows = <<>> /\ phase = "read"
Read == /\ phase = "read" /\ Len(y) < MaxLen
        /\ \E v \in 0..MaxVal : y' = Append(y, v) /\ Alternating(y') /\ (Len(y') = 2 => y'[1] # y'[2])
        /\ stk' = Append(stk, Len(y)) /\ phase' = "reduce" /\ UNCHANGED rows
Top3 == LET n == Len(stk) IN <<At(y, stk[n - 2]), At(y, stk[n - 1]), At(y, stk[n])>>
CanClose == Len(stk) >= 3 /\ Abs(Top3[2] - Top3[1]) <= Abs(Top3[3] - Top3[2])
Row(h) == LET n == Len(stk) IN <<Abs(Top3[2] - Top3[1]), Top3[2] + Top3[1], h, stk[n - 2], stk[n - 1]>>
CloseHalf == /\ phase = "reduce" /\ CanClose /\ Len(stk) = 3
             /\ rows' = Append(rows, Row(1)) /\ stk' = Tail(stk) /\ UNCHANGED <<y, phase>>
CloseFull == /\ phase = "reduce" /\ CanClose /\ Len(stk) > 3
             /\ rows' = Append(rows, Row(2))
             /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 3), stk[Len(stk)]) /\ UNCHANGED <<y, phase>>
Wait == phase = "reduce" /\ ~CanClose /\ phase' = "read" /\ UNCHANGED <<y, stk, rows>>
EndOfHistory == phase = "read" /\ Len(y) >= 1 /\ phase' = "drain" /\ UNCHANGED <<y, stk, rows>>
Drain == /\ phase = "drain" /\ Len(stk) >= 2
         /\ rows' = Append(rows, <<Abs(At(y, stk[2]) - At(y, stk[1])), At(y, stk[2]) + At(y, stk[1]), 1, stk[1], stk[2]>>)
         /\ stk' = Tail(stk) /\ UNCHANGED <<y, phase>>
Report == /\ phase = "drain" /\ Len(stk) < 2 /\ phase' = "end" /\ UNCHANGED <<y, stk, rows>>
          /\ PrintT(ToJson([y |-> y, rows |-> rows]))
Next == Read \/ CloseHalf \/ CloseFull \/ Wait \/ EndOfHistory \/ Drain \/ Report
Spec == Init /\ [][Next]_vars

\* nothing is lost: closed cycles plus what is on the stack account for all motion
Conserved == SumRows(rows, 1) + TotVar(Pick(y, stk), 1) = TotVar(y, 1)
\* every turning point interval is counted: halves + stack intervals = intervals
Accounted == (phase # "end" /\ Len(y) >= 1) => SumHalves(rows, 1) + Len(stk) - 1 = Len(y) - 1
\* ranges waiting on the stack: strictly decreasing once reduced, except the one from the start
StackDecreasing == phase = "read" =>
    \A i \in 1..(Len(stk) - 2) : Abs(At(y, stk[i + 1]) - At(y, stk[i])) > Abs(At(y, stk[i + 2]) - At(y, stk[i + 1]))
\* the largest range of the history is always reported
LargestReported == phase = "end" /\ Len(y) >= 2 =>
    \E i \in 1..Len(rows) : rows[i][1] = SetMax(ToSet(y)) - SetMin(ToSet(y))
\* the machine computes the function used for trace checking
MatchesFunction == phase = "end" => rows = Astm(y)
=============================================================================
