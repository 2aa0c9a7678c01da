----------------------------- MODULE TrialsModel ----------------------------
(* Independent trials added one by one: the number of ways (out of D^n) to   *)
(* have k successes when trial i succeeds p[i] times out of D.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTrials, D
VARIABLES p, w, done
vars == <<p, w, done>>
Init == p = <<>> /\ w = <<1>> /\ done = FALSE
Trial(a) == p' = Append(p, a) /\ w' = [k \in 1..Len(w) + 1 |-> (IF k <= Len(w) THEN w[k] * (D - a) ELSE 0) + (IF k > 1 THEN w[k - 1] * a ELSE 0)]
Next == \/ ~done /\ Len(p) < MaxTrials /\ done' = FALSE /\ \E a \in 0..D : Trial(a)
        \/ ~done /\ Len(p) > 0 /\ done' = TRUE /\ UNCHANGED <<p, w>> /\ PrintT(ToJson([p |-> p, w |-> w]))
Spec == Init /\ [][Next]_vars
RECURSIVE Pow(_, _), Sum(_, _), SumP(_)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Sum(f, k) == IF k = 0 THEN 0 ELSE Sum(f, k - 1) + f[k]
SumP(k) == IF k = 0 THEN 0 ELSE SumP(k - 1) + p[k]
Total == Sum(w, Len(w)) = Pow(D, Len(p))
Mean == Len(p) > 0 => Sum([k \in 1..Len(w) |-> (k - 1) * w[k]], Len(w)) = SumP(Len(p)) * Pow(D, Len(p) - 1)
\* one peak
Unimodal == \A k \in 2..Len(w) - 1 : w[k] * w[k] >= w[k - 1] * w[k + 1]
=============================================================================
