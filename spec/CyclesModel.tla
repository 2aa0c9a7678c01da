----------------------------- MODULE CyclesModel ----------------------------
(***************************************************************************)
(* All sequences of turning points up to MaxLen over 0..MaxVal: relation   *)
(* between cycle pairs, rainflow cycles and the level crossings of the     *)
(* history they were counted from.                                         *)
(***************************************************************************)
EXTENDS Cycles, TLC, Json
CONSTANTS MaxLen, MaxVal
VARIABLES y, done
vars == <<y, done>>
Init == y = <<>> /\ done = FALSE
Grow == /\ ~done /\ Len(y) < MaxLen /\ UNCHANGED done
        /\ \E v \in 0..MaxVal : y' = Append(y, v) /\ Alternating(y') /\ (Len(y') = 2 => y'[1] # y'[2])
Mm == Pairs(y, "min2max")
MM == Pairs(y, "max2min")
Stop == /\ ~done /\ Len(y) >= 3 /\ done' = TRUE /\ UNCHANGED y
        /\ PrintT(ToJson([y |-> y, mm |-> Mm, MM |-> MM, lv |-> Levels(Mm),
                          lc |-> [k \in 1..4 |-> Spectrum(Mm, k)]]))
Next == Grow \/ Stop
Spec == Init /\ [][Next]_vars
Ready == Len(y) >= 3
\* levels strictly between the integer values (doubled grid) are crossed as often as the history says
SameCrossings == Ready => \A u \in 0..(2 * MaxVal) :
    LET y2 == [i \in 1..Len(y) |-> 2 * y[i]]
        s == PairStart(y, "min2max")
        used == SubSeq(y2, s + 1, s + 2 * Len(Mm))
        p2 == [i \in 1..Len(Mm) |-> <<2 * Mm[i][1], 2 * Mm[i][2]>>]
    IN  CountAt(p2, u, 1) = UpCount(used, u)
\* up- and downcrossing pairings see the same level equally often, but for the ends
NearlySame == Ready => \A u \in 0..MaxVal :
    LET a == CountAt(Mm, u, 1)  b == CountAt(MM, u, 1) IN a - b \in {-1, 0, 1}
\* the four definitions are ordered
Ordered == Ready => \A u \in 0..MaxVal :
    /\ CountAt(Mm, u, 1) <= CountAt(Mm, u, 2) /\ CountAt(Mm, u, 2) <= CountAt(Mm, u, 3)
    /\ CountAt(Mm, u, 1) <= CountAt(Mm, u, 4) /\ CountAt(Mm, u, 4) <= CountAt(Mm, u, 3)
\* the rainflow pairing of the same history has the same level crossing spectrum
RfcPairs == LET s == SkipMax(y)  z == SubSeq(y, s + 1, Len(y))
            IN  [k \in 1..NC(z) |-> <<At(z, Partner(z, k - 1)), At(z, 2*(k - 1) + 1)>>]
RainflowSameSpectrum == Ready => \A u \in 0..(2 * MaxVal) :
    LET d(ps) == [i \in 1..Len(ps) |-> <<2 * ps[i][1], 2 * ps[i][2]>>]
    IN  CountAt(d(RfcPairs), u, 1) >= CountAt(d(Mm), u, 1)
\* the matrix keeps every cycle
MatrixMass == Ready => \A dd \in {-1, 0, 1} :
    LET F == Matrix(Mm, 0, 1, MaxVal + 1, dd)
        RECURSIVE S(_, _)
        S(r, c) == IF r > MaxVal + 1 THEN 0
                   ELSE F[r][c] + IF c = MaxVal + 1 THEN S(r + 1, 1) ELSE S(r, c + 1)
    IN  S(1, 1) = Len(Mm)
=============================================================================
