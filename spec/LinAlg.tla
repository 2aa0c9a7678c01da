------------------------------- MODULE LinAlg -------------------------------
(* Linear algebra over the high precision reals of HPReal (strings).        *)
EXTENDS Integers, Sequences, FiniteSets, HPReal, TLC
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> HDot(A[i], v)])
Col(A, j) == TLCEval([i \in 1..Len(A) |-> A[i][j]])
Transp(A) == IF A = <<>> THEN <<>> ELSE TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MatMul(A, B) == LET Bt == Transp(B) IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> HDot(A[i], Bt[j])]])
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
Solve(A, b) == HSolve(A, b)
\* least squares by normal equations (exact enough at 60 digits)
LeastSq(A, b) == LET At == Transp(A) IN Solve(MatMul(At, A), MatVec(At, b))
=============================================================================
