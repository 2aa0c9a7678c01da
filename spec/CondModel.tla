------------------------------ MODULE CondModel -----------------------------
(* Conditional evaluation as a machine: branches are applied one after the   *)
(* other to the positions they select; every small set of masks is explored. *)
EXTENDS Helpers, Json
CONSTANTS N, K
VARIABLES conds, k, out
vars == <<conds, k, out>>
Masks == [1..N -> BOOLEAN]
Init == conds \in [1..K -> Masks] /\ k = 0 /\ out = [p \in 1..N |-> 0]
Apply == /\ k < K /\ k' = k + 1 /\ UNCHANGED conds
         /\ out' = [p \in 1..N |-> IF conds[k + 1][p] THEN 10 * (k + 1) + p ELSE out[p]]
         /\ (k + 1 = K => PrintT(ToJson([conds |-> conds, want |-> out'])))
Next == Apply
Spec == Init /\ [][Next]_vars
Covered == \A p \in 1..N : (out[p] = 0) <=> (\A j \in 1..k : ~conds[j][p])
LastWins == k = K => \A p \in 1..N : LET j == LastTrue(conds, p) IN out[p] = IF j = 0 THEN 0 ELSE 10 * j + p
DisjointAgree == (\A p \in 1..N : Cardinality({j \in 1..K : conds[j][p]}) <= 1) =>
                 \A p \in 1..N : LastTrue(conds, p) = FirstTrue(conds, p)
=============================================================================
