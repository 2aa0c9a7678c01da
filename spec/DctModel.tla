------------------------------ MODULE DctModel ------------------------------
(* Arrays whose sides have length 1 or 2: the orthonormal cosine transform   *)
(* of length 2 is (a+b, a-b)/sqrt(2), so any sequence of transforms along    *)
(* axes keeps integers up to a power of sqrt(2).                             *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS MaxDim, Values, MaxOps
VARIABLES sh, x0, x, ops
vars == <<sh, x0, x, ops>>
RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Size(s) == ProdTo(s, Len(s))
Stride(s, a) == Size(s) \div ProdTo(s, a)
Along(v, s, a) ==
    IF s[a] = 1 THEN v
    ELSE LET st == Stride(s, a) IN
         [q \in 1..Len(v) |-> LET p == q - 1  k == (p \div st) % 2 IN IF k = 0 THEN v[q] + v[q + st] ELSE v[q - st] - v[q]]
Shapes == UNION {[1..d -> {1, 2}] : d \in 1..MaxDim}
Init == /\ sh \in Shapes
        /\ x0 \in [1..Size(sh) -> Values]
        /\ x = x0 /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E a \in 1..Len(sh) : /\ x' = Along(x, sh, a)
                                  /\ ops' = Append(ops, a)
                                  /\ PrintT(ToJson([sh |-> sh, x0 |-> x0, ops |-> Append(ops, a), x |-> Along(x, sh, a)]))
        /\ UNCHANGED <<sh, x0>>
Spec == Init /\ [][Next]_vars
RECURSIVE Sq(_, _)
Sq(v, k) == IF k = 0 THEN 0 ELSE v[k] * v[k] + Sq(v, k - 1)
RECURSIVE Two(_)
Two(o) == IF o = <<>> THEN 1 ELSE (IF sh[Head(o)] = 2 THEN 2 ELSE 1) * Two(Tail(o))
\* energy is kept, and the transform along an axis is its own inverse
Parseval == Sq(x, Len(x)) = Two(ops) * Sq(x0, Len(x0))
Involution == \A a \in 1..Len(sh) : LET y == Along(Along(x, sh, a), sh, a) IN \A i \in 1..Len(x) : y[i] = (IF sh[a] = 2 THEN 2 ELSE 1) * x[i]
Commute == \A a \in 1..Len(sh), b \in 1..Len(sh) : Along(Along(x, sh, a), sh, b) = Along(Along(x, sh, b), sh, a)
=============================================================================
