---------------------------- MODULE ProfileModel ----------------------------
(* Reading an interval off a profile that is known in points: the profile    *)
(* grows point by point (quarters below the maximum, unequal steps); the     *)
(* interval runs from the first to the last crossing of the level (ten       *)
(* quarters down), or to the end of the range where it does not reach it.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Drops, Steps, MaxLen
VARIABLES arg, drop, done
vars == <<arg, drop, done>>
Level == 10
Init == arg = <<>> /\ drop = <<>> /\ done = FALSE
Point(s, d) == ~done /\ Len(arg) < MaxLen /\ arg' = Append(arg, IF arg = <<>> THEN 0 ELSE arg[Len(arg)] + s) /\ drop' = Append(drop, d) /\ UNCHANGED done
Up == {k \in 1..Len(drop) - 1 : drop[k] > Level /\ drop[k + 1] < Level}
Down == {k \in 1..Len(drop) - 1 : drop[k] < Level /\ drop[k + 1] > Level}
\* crossing in [k, k+1], as a fraction <<num, den>>
Cross(k) == LET a == drop[k] - Level  b == drop[k + 1] - Level IN
            IF a > b THEN <<arg[k] * (a - b) + (arg[k + 1] - arg[k]) * a, a - b>> ELSE <<arg[k] * (b - a) - (arg[k + 1] - arg[k]) * a, b - a>>
Min(S) == CHOOSE v \in S : \A w \in S : v <= w
Max(S) == CHOOSE v \in S : \A w \in S : v >= w
All == Up \cup Down
Ends == <<arg[1], arg[Len(arg)]>>
Lower == IF All # {} /\ Min(All) \in Up THEN Cross(Min(All)) ELSE <<Ends[1], 1>>
Upper == IF All # {} /\ Max(All) \in Down THEN Cross(Max(All)) ELSE <<Ends[2], 1>>
\* above the level somewhere, as a profile with its maximum in range is; below it only outside one stretch
Sound == Len(arg) >= 2 /\ (\E k \in 1..Len(drop) : drop[k] = 0)
         /\ (IF All = {} THEN TRUE ELSE IF Min(All) \in Up /\ Max(All) \in Down THEN TRUE ELSE \E k \in All : All = {k})
Read == /\ ~done /\ Sound /\ done' = TRUE /\ UNCHANGED <<arg, drop>>
        /\ PrintT(ToJson([arg |-> arg, drop |-> drop, lower |-> Lower, upper |-> Upper]))
Next == (\E s \in Steps, d \in Drops : (arg = <<>> => s = 1) /\ Point(s, d)) \/ Read
Spec == Init /\ [][Next]_vars
Leq(f, g) == f[1] * g[2] <= g[1] * f[2]
\* the interval lies in the range and holds the maximum
Holds == Sound => /\ Leq(<<Ends[1], 1>>, Lower) /\ Leq(Upper, <<Ends[2], 1>>)
                  /\ \A k \in 1..Len(drop) : drop[k] = 0 => Leq(Lower, <<arg[k], 1>>) /\ Leq(<<arg[k], 1>>, Upper)
=============================================================================
