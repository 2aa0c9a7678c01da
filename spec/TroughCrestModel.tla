-------------------------- MODULE TroughCrestModel --------------------------
(***************************************************************************)
(* Every signal up to MaxLen over 0..MaxVal and the troughs and crests     *)
(* relative to Level, for each way of selecting the crossings.             *)
(***************************************************************************)
EXTENDS Turning, TLC, Json
CONSTANTS MaxLen, MaxVal, Level
VARIABLES x, done
vars == <<x, done>>
Kinds == {"all", "tw", "cw", "dw", "uw"}
Cr(k) == X!FindCross(X!SignSeq(x, Level), k)
Tc(k) == IF Len(Cr(k)) <= 2 THEN <<>> ELSE TroughCrest(x, Level, Cr(k))
Out(k) == [a |-> Tc(k), b |-> IF Len(Cr(k)) <= 2 THEN <<>> ELSE Cr(k)]
Init == x = <<>> /\ done = FALSE
Grow == ~done /\ Len(x) < MaxLen /\ (\E v \in 0..MaxVal : x' = Append(x, v)) /\ UNCHANGED done
Stop == /\ ~done /\ Len(x) >= 2 /\ done' = TRUE /\ UNCHANGED x
        /\ PrintT(ToJson([x |-> x, all |-> Out("all"), tw |-> Out("tw"), cw |-> Out("cw"),
                          dw |-> Out("dw"), uw |-> Out("uw")]))
Next == Grow \/ Stop
Spec == Init /\ [][Next]_vars
\* exactly one trough or crest between consecutive crossings
OneBetween == \A k \in Kinds : LET c == Cr(k)  t == Tc(k)
              IN t # <<>> => /\ Len(t) = Len(c) - 1
                             /\ \A i \in 1..Len(t) : c[i] < t[i] /\ t[i] <= c[i + 1]
\* troughs lie below the level and crests above it
SidesOk == \A k \in Kinds : \A i \in 1..Len(Tc(k)) :
    LET c == Cr(k)  s == At(x, Tc(k)[i])
    IN  /\ s # Level
        /\ \A j \in (c[i] + 1)..c[i + 1] : IF s < Level THEN At(x, j) >= s ELSE At(x, j) <= s
\* they alternate
AlternatesTC == \A k \in Kinds : \A i \in 1..(Len(Tc(k)) - 1) :
    (At(x, Tc(k)[i]) - Level) * (At(x, Tc(k)[i + 1]) - Level) < 0
=============================================================================
