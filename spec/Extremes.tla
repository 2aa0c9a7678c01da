------------------------------ MODULE Extremes ------------------------------
(* Peaks over threshold, declustering, empirical distribution, return period,*)
(* extremal index, mean residual life, dispersion index.                      *)
EXTENDS HPReal, Integers, Sequences, FiniteSets, SequencesExt, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
\* indices (1-based) of the exceedances
Exceed(d, u) == {i \in 1..Len(d) : d[i] > u}
Biggest(d, S) == CHOOSE i \in S : \A j \in S : d[j] <= d[i]
RECURSIVE Greedy(_, _, _, _, _)
\* keep the largest remaining peak and drop everything within tmin of it
Greedy(d, t, tmin, S, kept) ==
    IF S = {} THEN kept
    ELSE LET i == Biggest(d, S)
         IN  Greedy(d, t, tmin, {j \in S : Abs(t[j] - t[i]) > tmin}, kept \cup {i})
Pot(d, t, u, tmin) == LET K == Greedy(d, t, tmin, Exceed(d, u), {})
                      IN  SortSeq(SetToSeq(K), LAMBDA a, b : t[a] < t[b])
Apart(t, K, tmin) == \A i, j \in K : i # j => Abs(t[i] - t[j]) > tmin
Explained(d, t, u, tmin, K) == \A i \in Exceed(d, u) \ K : \E j \in K : Abs(t[i] - t[j]) <= tmin /\ d[j] >= d[i]
=============================================================================
