----------------------------- MODULE InterpModel ----------------------------
(* Every short piecewise linear function, extended piece by piece: its       *)
(* values and twice its integral at the breaks and the middle of each piece. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxPieces, Widths, Steps, Levels
VARIABLES p, done
vars == <<p, done>>
\* a piece: width h (even), slope a, left value b
RECURSIVE BreakAt(_), TwiceInt(_)
BreakAt(k) == IF k = 0 THEN 0 ELSE BreakAt(k - 1) + p[k].h
TwiceInt(k) == IF k = 0 THEN 0 ELSE TwiceInt(k - 1) + p[k].h * (2 * p[k].b + p[k].a * p[k].h)
Mid(k) == LET u == p[k].h \div 2 IN TwiceInt(k - 1) + u * (2 * p[k].b + p[k].a * u)
Init == p = <<>> /\ done = FALSE
Next == \/ ~done /\ Len(p) < MaxPieces /\ done' = FALSE /\ \E h \in Widths, a \in Steps, b \in Levels : p' = Append(p, [h |-> h, a |-> a - 2, b |-> b])
        \/ ~done /\ Len(p) > 0 /\ done' = TRUE /\ p' = p
           /\ PrintT(ToJson([br |-> [k \in 1..Len(p) + 1 |-> BreakAt(k - 1)], a |-> [k \in 1..Len(p) |-> p[k].a], b |-> [k \in 1..Len(p) |-> p[k].b],
                             f |-> [k \in 1..Len(p) |-> <<p[k].b, p[k].b + p[k].a * (p[k].h \div 2)>>], end |-> p[Len(p)].b + p[Len(p)].a * p[Len(p)].h,
                             I |-> [k \in 1..Len(p) |-> <<TwiceInt(k - 1), Mid(k)>>], I2 |-> TwiceInt(Len(p))]))
Spec == Init /\ [][Next]_vars
\* the two halves of a piece add up (Simpson's rule, exact), the integral of a positive function grows
Halves == \A k \in 1..Len(p) : LET u == p[k].h \div 2 IN TwiceInt(k) - Mid(k) = u * (2 * (p[k].b + p[k].a * u) + p[k].a * u)
Grows == \A k \in 1..Len(p) : p[k].b > 0 /\ p[k].b + p[k].a * p[k].h > 0 => TwiceInt(k) > TwiceInt(k - 1)
=============================================================================
