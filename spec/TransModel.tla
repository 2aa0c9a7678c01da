----------------------------- MODULE TransModel -----------------------------
(* Every tabulated transformation with integer values on a small integer     *)
(* grid, built point by point, and its values half way and in the nodes, in  *)
(* units of 1/2.                                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Vals
VARIABLES f, done
vars == <<f, done>>
Half(g) == [k \in 1..2 * Len(g) - 1 |-> IF k % 2 = 1 THEN 2 * g[(k + 1) \div 2] ELSE g[k \div 2] + g[(k \div 2) + 1]]
Increasing(g) == \A i \in 1..Len(g) - 1 : g[i] < g[i + 1]
Init == f = <<>> /\ done = FALSE
Next == \/ Len(f) < N /\ done' = FALSE /\ \E v \in Vals : f' = Append(f, v)
        \/ Len(f) >= 2 /\ ~done /\ done' = TRUE /\ f' = f /\ PrintT(ToJson([f |-> f, half |-> Half(f)]))
Spec == Init /\ [][Next]_vars
\* a transformation of increasing values is increasing, and passes through its nodes
Monotone == Increasing(f) => Increasing(Half(f))
Nodes == \A i \in 1..Len(f) : Half(f)[2 * i - 1] = 2 * f[i]
Bounded == \A k \in 1..(2 * Len(f)) - 1 : \E i, j \in 1..Len(f) : 2 * f[i] <= Half(f)[k] /\ Half(f)[k] <= 2 * f[j]
=============================================================================
