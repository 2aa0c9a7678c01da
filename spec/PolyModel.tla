----------------------------- MODULE PolyModel ------------------------------
(* A polynomial with integer coefficients (in units of 1/Unit) worked on by  *)
(* a sequence of operations; its values in a few points are predicted from   *)
(* the operations alone and must agree with the coefficients.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Deg, Max, Steps
VARIABLES p0, p, ops
vars == <<p0, p, ops>>
Unit == 12
RECURSIVE H(_, _, _)
H(c, x, i) == IF i = 0 THEN 0 ELSE H(c, x, i - 1) * x + c[i]
Val(c, x) == H(c, x, Len(c))
\* c(t - x) by repeated synthetic division
Syn(c, x, top) == LET f[i \in 1..top] == IF i = 1 THEN c[1] ELSE c[i] - x * f[i - 1] IN [i \in 1..Len(c) |-> IF i <= top THEN f[i] ELSE c[i]]
RECURSIVE Shift(_, _, _)
Shift(c, x, top) == IF top <= 1 THEN c ELSE Shift(Syn(c, x, top), x, top - 1)
Reloc(c, x) == Shift(c, x, Len(c))
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
Rescl(c, half) == [i \in 1..Len(c) |-> IF half THEN c[i] * P2(Len(c) - i) ELSE c[i] * Sgn(Len(c) - i)]   \* c(2t), c(-t)
Der(c) == IF Len(c) = 1 THEN <<0>> ELSE [i \in 1..(Len(c) - 1) |-> (Len(c) - i) * c[i]]
CanInt(c) == Len(c) <= Deg + 1 /\ \A i \in 1..Len(c) : c[i] % (Len(c) + 1 - i) = 0
Integ(c) == [i \in 1..(Len(c) + 1) |-> IF i <= Len(c) THEN c[i] \div (Len(c) + 1 - i) ELSE 0]
Init == /\ p0 \in UNION {[1..n -> (-Max)..Max] : n \in 1..(Deg + 1)} /\ p0[1] # 0
        /\ p = [i \in 1..Len(p0) |-> Unit * p0[i]] /\ ops = <<>>
Do(name, q) == /\ p' = q /\ ops' = Append(ops, name) /\ UNCHANGED p0
               /\ (Len(ops) + 1 = Steps => PrintT(ToJson([p |-> p0, ops |-> ops', want |-> q, unit |-> Unit])))
Next == /\ Len(ops) < Steps
        /\ \/ Do("reloc+", Reloc(p, 1)) \/ Do("reloc-", Reloc(p, -2))
           \/ Do("half", Rescl(p, TRUE)) \/ Do("mirror", Rescl(p, FALSE))
           \/ Do("der", Der(p))
           \/ (CanInt(p) /\ Do("int", Integ(p)))
Spec == Init /\ [][Next]_vars
Xs == {-2, -1, 0, 1, 3}
RelocValue == \A x \in Xs : Val(Reloc(p, 1), x) = Val(p, x - 1) /\ Val(Reloc(p, -2), x) = Val(p, x + 2)
RelocGroup == Reloc(Reloc(p, 1), -1) = p /\ Reloc(Reloc(p, 1), 1) = Reloc(p, 2)
ResclValue == \A x \in Xs : Val(Rescl(p, TRUE), x) = Val(p, 2 * x) /\ Val(Rescl(p, FALSE), x) = Val(p, -x)
DerOfInt == CanInt(p) => Der(Integ(p)) = p
DerShift == Reloc(Der(p), 1) = Der(Reloc(p, 1))
=============================================================================
