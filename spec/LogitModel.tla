----------------------------- MODULE LogitModel -----------------------------
(* Regressions with a closed form, fitted one after another with the same   *)
(* object: shares of three categories, and two categories in two groups.    *)
(* The fitted probabilities are shares of the last data alone.              *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Most, Depth
VARIABLES hist, shares
vars == <<hist, shares>>
Plain == {c \in [1..3 -> 0..Most] : Cardinality({k \in 1..3 : c[k] > 0}) >= 2}
Two == [1..4 -> 1..Most]
Keep(c) == SelectSeq(c, LAMBDA v : v > 0)
Sum3(c) == c[1] + c[2] + c[3]
\* shares as rows of <<numerator, denominator>> per group
SharesPlain(c) == <<[k \in 1..Len(Keep(c)) |-> <<Keep(c)[k], Sum3(c)>>]>>
SharesTwo(c) == << <<<<c[1], c[1] + c[2]>>, <<c[2], c[1] + c[2]>>>>, <<<<c[3], c[3] + c[4]>>, <<c[4], c[3] + c[4]>>>> >>
Init == hist = <<>> /\ shares = <<>>
Fit(kind, c) == /\ Len(hist) < Depth
                /\ hist' = Append(hist, [kind |-> kind, c |-> c])
                /\ shares' = IF kind = "plain" THEN SharesPlain(c) ELSE SharesTwo(c)
                /\ (Len(hist') = Depth => PrintT(ToJson([hist |-> hist', shares |-> shares'])))
\* only the last fit of a history ranges over all data
Next == \/ \E c \in Plain : (Len(hist) = Depth - 1 \/ c \in {<<1, 0, 2>>, <<2, 1, 1>>}) /\ Fit("plain", c)
        \/ \E c \in Two : (Len(hist) = Depth - 1 \/ c \in {<<1, 2, 2, 1>>}) /\ Fit("two", c)
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(r) == IF r = <<>> THEN 0 ELSE r[1][1] + Total(SubSeq(r, 2, Len(r)))
AddUp == \A g \in 1..Len(shares) : Total(shares[g]) = shares[g][1][2]
Positive == \A g \in 1..Len(shares) : \A k \in 1..Len(shares[g]) : shares[g][k][1] > 0
=============================================================================
