---------------------------- MODULE ExtremesModel ---------------------------
(* Declustering as a machine that repeatedly keeps the largest peak that is  *)
(* left, explored for every order of the peaks and every spacing.             *)
EXTENDS Extremes, Json
CONSTANTS N, MaxGap
VARIABLES d, gap, u, tmin, left, kept
vars == <<d, gap, u, tmin, left, kept>>
Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
RECURSIVE Tm(_, _)
Tm(g, i) == IF i <= 1 THEN 0 ELSE Tm(g, i - 1) + g[i - 1]
T == [i \in 1..N |-> Tm(gap, i)]
Init == /\ d \in Perms /\ gap \in [1..(N - 1) -> 1..MaxGap] /\ u \in {0, 1} /\ tmin \in {1, 2}
        /\ left = {i \in 1..N : d[i] > u} /\ kept = {}
Keep == /\ left # {}
        /\ LET i == Biggest(d, left)
               l2 == {j \in left : Abs(T[j] - T[i]) > tmin}
           IN  /\ kept' = kept \cup {i} /\ left' = l2
               /\ (l2 = {} => PrintT(ToJson([d |-> d, t |-> T, u |-> u, tmin |-> tmin,
                      want |-> SortSeq(SetToSeq(kept \cup {i}), LAMBDA a, b : a < b)])))
        /\ UNCHANGED <<d, gap, u, tmin>>
Next == Keep
Spec == Init /\ [][Next]_vars
KeptApart == Apart(T, kept, tmin)
NothingLost == left = {} => Explained(d, T, u, tmin, kept)
Maximum == kept # {} => \A i \in 1..N : \E j \in kept : d[i] <= d[j]
SameAsDef == left = {} => kept = Greedy(d, T, tmin, Exceed(d, u), {})
=============================================================================
