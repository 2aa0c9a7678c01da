----------------------------- MODULE PaduaModel -----------------------------
(* The Padua points of degree n as the lattice points a billiard ball visits *)
(* that leaves a corner of an n by n + 1 table diagonally.                   *)
EXTENDS Integers, TLC, Json, FiniteSets
CONSTANT MaxN
VARIABLES n, i, j, di, dj, seen, steps, done
vars == <<n, i, j, di, dj, seen, steps, done>>
Init == n \in 1..MaxN /\ i = 0 /\ j = 0 /\ di = 1 /\ dj = 1 /\ seen = {<<0, 0>>} /\ steps = 0 /\ done = FALSE
Corner == i \in {0, n} /\ j \in {0, n + 1}
Bounce == /\ ~done /\ ~(Corner /\ steps > 0)
          /\ i' = i + di /\ j' = j + dj
          /\ di' = IF i' = 0 THEN 1 ELSE IF i' = n THEN -1 ELSE di
          /\ dj' = IF j' = 0 THEN 1 ELSE IF j' = n + 1 THEN -1 ELSE dj
          /\ seen' = seen \cup {<<i', j'>>} /\ steps' = steps + 1 /\ UNCHANGED <<n, done>>
Stop == /\ ~done /\ Corner /\ steps > 0 /\ done' = TRUE /\ UNCHANGED <<n, i, j, di, dj, seen, steps>>
        /\ PrintT(ToJson([n |-> n, p |-> seen]))
Next == Bounce \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnTable == i \in 0..n /\ j \in 0..n + 1
Parity == \A p \in seen : (p[1] + p[2]) % 2 = 0
Number == done => Cardinality(seen) * 2 = (n + 1) * (n + 2) /\ steps = n * (n + 1)
Every == done => seen = {p \in (0..n) \X (0..n + 1) : (p[1] + p[2]) % 2 = 0}
Ends == <>done
=============================================================================
