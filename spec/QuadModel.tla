----------------------------- MODULE QuadModel ------------------------------
(* Every polynomial with few small integer coefficients, built term by term, *)
(* and its integral over [0, M], in units of 1/60.                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Deg, Coefs, M          \* Deg <= 5; coefficients are shifted by one
VARIABLES c, done
vars == <<c, done>>
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Cf(p) == [k \in 1..Len(p) |-> p[k] - 1]
Integral(p, m) == LET t == [k \in 1..Len(p) |-> (p[k] - 1) * (60 \div k) * Power(m, k)] IN SumTo(t, Len(p))
Init == c = <<>> /\ done = FALSE
Next == \/ Len(c) < Deg + 1 /\ done' = FALSE /\ \E v \in Coefs : c' = Append(c, v)
        \/ Len(c) >= 1 /\ ~done /\ done' = TRUE /\ c' = c /\ PrintT(ToJson([c |-> Cf(c), i |-> [m \in 1..M |-> Integral(c, m)]]))
Spec == Init /\ [][Next]_vars
\* the integral is additive over terms and vanishes on an empty interval
Additive == Len(c) > 0 => \A m \in 1..M : Integral(c, m) = Integral(SubSeq(c, 1, Len(c) - 1), m) + (c[Len(c)] - 1) * (60 \div Len(c)) * Power(m, Len(c))
Empty == Integral(c, 0) = 0
=============================================================================
