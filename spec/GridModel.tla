----------------------------- MODULE GridModel ------------------------------
(* Linear binning as a machine that takes one two-dimensional datum at a     *)
(* time, finds its cell and shares its unit mass between the four corners.   *)
(* Positions are integers, the grid points are the multiples of Q.           *)
EXTENDS Integers, Sequences, FiniteSetsExt, TLC, Json
CONSTANTS Q, Inc, N
VARIABLES pts, c
vars == <<pts, c>>
G == 0..(Inc - 1)
Pos == 0..(Q * (Inc - 1))
Cell(p) == IF p \div Q > Inc - 2 THEN Inc - 2 ELSE p \div Q
Abs(a) == IF a < 0 THEN -a ELSE a
HatI(p, j) == IF Abs(p - Q * j) >= Q THEN 0 ELSE Q - Abs(p - Q * j)
Init == pts = <<>> /\ c = [j \in G \X G |-> 0]
Share(p, j) == IF j = Cell(p) THEN Q * (Cell(p) + 1) - p ELSE IF j = Cell(p) + 1 THEN p - Q * Cell(p) ELSE 0
Add == /\ Len(pts) < N
       /\ \E p, q \in Pos :
            LET c2 == [j \in G \X G |-> c[j] + Share(p, j[1]) * Share(q, j[2])] IN
            /\ pts' = Append(pts, <<p, q>>) /\ c' = c2
            /\ (Len(pts) + 1 = N => PrintT(ToJson([pts |-> pts', inc |-> Inc, q |-> Q,
                  want |-> [a \in 1..Inc |-> [b \in 1..Inc |-> c2[<<a - 1, b - 1>>]]]])))
Spec == Init /\ [][Add]_vars
Sum(S, f(_)) == MapThenSumSet(f, S)
Mass == Sum(G \X G, LAMBDA j : c[j]) = Q * Q * Len(pts)
Moment == /\ Sum(G \X G, LAMBDA j : c[j] * j[1]) = Q * Sum(1..Len(pts), LAMBDA i : pts[i][1])
          /\ Sum(G \X G, LAMBDA j : c[j] * j[2]) = Q * Sum(1..Len(pts), LAMBDA i : pts[i][2])
NonNegative == \A j \in G \X G : c[j] >= 0
SameAsHat == \A j \in G \X G : c[j] = Sum(1..Len(pts), LAMBDA i : HatI(pts[i][1], j[1]) * HatI(pts[i][2], j[2]))
=============================================================================
