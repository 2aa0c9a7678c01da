------------------------------- MODULE Markov -------------------------------
(***************************************************************************)
(* Cycle matrices, counting distributions and the rainflow matrix of a     *)
(* Markov chain of turning points.                                         *)
(* Layout of the chain matrices: n levels, row r is the maximum at level   *)
(* n-r (rows run downwards), column c is the minimum at level c-1.         *)
(***************************************************************************)
EXTENDS LinAlg
(* ---- counting distributions of integer cycle matrices ------------------ *)
RECURSIVE SumBox(_, _, _, _, _)
SumBox(F, r, r1, c0, c1) ==
    IF r > r1 THEN 0
    ELSE LET RECURSIVE S(_)
             S(c) == IF c > c1 THEN 0 ELSE F[r][c] + S(c + 1)
         IN  S(c0) + SumBox(F, r + 1, r1, c0, c1)
\* number of cycles with minimum below level i and maximum above level j
Cmat2Nt(F) == LET n == Len(F) IN [i \in 1..n |-> [j \in 1..n |-> SumBox(F, 1, i - 1, j + 1, n)]]
Nt2Cmat(N) == LET n == Len(N) IN [i \in 1..n |-> [j \in 1..n |->
                IF i = n \/ j = 1 THEN 0
                ELSE N[i + 1][j - 1] - N[i][j - 1] - N[i + 1][j] + N[i][j]]]
\* frequency matrices in the transposed layout of the crossing chain
Fr2Nt(F) == LET n == Len(F) IN [i \in 1..n |-> [j \in 1..n |->
                IF i + j <= n + 1 THEN SumBox(F, 1, i - 1, 1, j - 1) ELSE 0]]
Nt2Fr(N, kind) == LET n == Len(N)
                      d(i, j) == N[i][j] + N[i + 1][j + 1] - N[i][j + 1] - N[i + 1][j]
                  IN  [i \in 1..n |-> [j \in 1..n |->
                        IF kind = 0 THEN IF i < n /\ j < n THEN d(i, j) ELSE 0
                        ELSE IF i > 1 /\ j > 1 THEN d(i - 1, j - 1) ELSE 0]]

(* ---- rainflow matrix of a Markov chain ---------------------------------- *)
\* fm: min->max frequencies, fM: max->min frequencies, both positive on the triangle r + c <= n
\* P[c][M]: probability that minimum c is followed by maximum M (levels 1..n)
Pup(fm) == LET n == Len(fm)
               s(c) == HSum([r \in 1..n |-> fm[r][c]])
           IN  TLCEval([c \in 1..n |-> [M \in 1..n |-> IF HEq(s(c), "0") THEN "0" ELSE HDiv(fm[n + 1 - M][c], s(c))]])
Pdn(fM) == LET n == Len(fM)
               s(M) == HSum(fM[n + 1 - M])
           IN  TLCEval([M \in 1..n |-> [c \in 1..n |-> IF HEq(s(M), "0") THEN "0" ELSE HDiv(fM[n + 1 - M][c], s(M))]])
\* rate at which the chain goes from a minimum at level <= u (1..u) to a maximum at level >= v
\* without visiting a minimum at level <= u in between: the number of rainflow cycles around (u,v)
Upcross(fm, P, Q, u, v) ==
    LET n == Len(fm)
        k == n - u                               \* inner minima u+1..n
        up(c) == HSum([j \in 1..(n - v + 1) |-> P[c][v + j - 1]])
        step(c, d) == HSum([M \in 1..(v - 1) |-> HMul(P[c][M], Q[M][d])])
        A == TLCEval([i \in 1..k |-> [j \in 1..k |-> HSub(IF i = j THEN "1" ELSE "0", step(u + i, u + j))]])
        b == TLCEval([i \in 1..k |-> up(u + i)])
        h == TLCEval(Solve(A, b))
    IN  HSum([c \in 1..u |-> HMul(HSum([r \in 1..n |-> fm[r][c]]),
              HAdd(up(c), HSum([i \in 1..k |-> HMul(step(c, u + i), h[i])])))])
Rainflow(fm, fM) ==
    LET n == Len(fm)
        P == Pup(fm)  Q == Pdn(fM)
        N == TLCEval([u \in 1..(n + 1) |-> [v \in 1..(n + 1) |->       \* N[u+1][v] = rate(u, v)
                IF v < u \/ v > n \/ u = 1 THEN "0" ELSE Upcross(fm, P, Q, u - 1, v)]])
    IN  [r \in 1..n |-> [c \in 1..n |->
            LET M == n + 1 - r IN
            IF M <= c THEN "0"
            ELSE HAdd(HSub(HSub(N[c + 1][M], N[c][M]), N[c + 1][M + 1]), N[c][M + 1])]]
=============================================================================
