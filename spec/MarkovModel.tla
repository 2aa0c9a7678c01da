----------------------------- MODULE MarkovModel ----------------------------
(* Small cycle matrices filled one cycle at a time: the two representations *)
(* (cycle matrix, counting distribution) always determine one another.      *)
EXTENDS Markov, Json
CONSTANTS Size, MaxCycles
VARIABLES F, cnt
vars == <<F, cnt>>
Zero == [i \in 1..Size |-> [j \in 1..Size |-> 0]]
Init == F = Zero /\ cnt = 0
\* one more cycle with minimum at level i and maximum at level j > i
Add == /\ cnt < MaxCycles /\ cnt' = cnt + 1
       /\ \E i \in 1..(Size - 1), j \in 2..Size : i < j /\ F' = [F EXCEPT ![i][j] = @ + 1]
       /\ PrintT(ToJson([F |-> F', nt |-> Cmat2Nt(F')]))
Next == Add
Spec == Init /\ [][Next]_vars
RoundTrip == Nt2Cmat(Cmat2Nt(F)) = F
\* adding cycles only raises counts, and the diagonal is the level crossing count
Crossings == \A u \in 1..Size : Cmat2Nt(F)[u][u] = SumBox(F, 1, u - 1, u + 1, Size)
Total == \A i, j \in 1..Size : Cmat2Nt(F)[i][j] <= cnt
Monotone == \A i, j \in 1..(Size - 1) :
    /\ Cmat2Nt(F)[i][j] <= Cmat2Nt(F)[i + 1][j] /\ Cmat2Nt(F)[i][j + 1] <= Cmat2Nt(F)[i][j]
\* the crossing-chain layout (mirror image): triangle r + c <= Size - 1
G == [r \in 1..Size |-> [c \in 1..Size |-> IF r + c <= Size - 1 THEN F[c][Size + 1 - r] ELSE 0]]
FrRoundTrip == LET H == Nt2Fr(Fr2Nt(G), 0) IN
    \A r, c \in 1..Size : r + c <= Size - 1 => H[r][c] = G[r][c]
=============================================================================
