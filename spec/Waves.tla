-------------------------------- MODULE Waves -------------------------------
(***************************************************************************)
(* Wave periods between level crossings as a recorder machine, and wave    *)
(* heights, crest/trough amplitudes and steepnesses by definition.         *)
(***************************************************************************)
EXTENDS Turning, HPReal, TLC, Json

(* ---- definitions over real crossing times (strings) ------------------- *)
\* c: 0-based crossing indices, tt: their times, up: direction of each crossing
PeriodPairs(up, a, b) ==
    \* for every crossing of kind a the next crossing of kind b
    LET n == Len(up)
        starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : up[i] = a)
        nxt(i) == LET S == {j \in (i + 1)..n : up[j] = b} IN IF S = {} THEN 0 ELSE SetMin(S)
    IN  SelectSeq([k \in 1..Len(starts) |-> <<starts[k], nxt(starts[k])>>], LAMBDA p : p[2] # 0)
CrossTime(t, f, i, v) ==      \* i 1-based sample before the crossing
    HAdd(t[i], HDiv(HMul(HSub(v, f[i]), HSub(t[i + 1], t[i])), HSub(f[i + 1], f[i])))

(* ---- machine: the recorder sees +1/-1 samples, crossings are midway --- *)
CONSTANT MaxLen
VARIABLES x, lastd, lastu, dd, uu, du, ud, done
vars == <<x, lastd, lastu, dd, uu, du, ud, done>>
NONE == -1
Init == /\ x = <<>> /\ lastd = NONE /\ lastu = NONE /\ done = FALSE
        /\ dd = <<>> /\ uu = <<>> /\ du = <<>> /\ ud = <<>>
Sample(s) ==
    /\ ~done /\ Len(x) < MaxLen /\ x' = Append(x, s) /\ UNCHANGED done
    /\ LET cross == Len(x) > 0 /\ x[Len(x)] # s
           now == 2 * Len(x) - 1              \* doubled time of the crossing
       IN  IF ~cross THEN UNCHANGED <<lastd, lastu, dd, uu, du, ud>>
           ELSE IF s = -1
           THEN /\ lastd' = now /\ UNCHANGED <<lastu, uu, du>>
                /\ dd' = IF lastd = NONE THEN dd ELSE Append(dd, now - lastd)
                /\ ud' = IF lastu = NONE THEN ud ELSE Append(ud, now - lastu)
           ELSE /\ lastu' = now /\ UNCHANGED <<lastd, dd, ud>>
                /\ uu' = IF lastu = NONE THEN uu ELSE Append(uu, now - lastu)
                /\ du' = IF lastd = NONE THEN du ELSE Append(du, now - lastd)
Cr == X!CrossIdx(X!SignSeq(x, 0))
Stop == /\ ~done /\ Len(Cr) >= 2 /\ done' = TRUE /\ UNCHANGED <<x, lastd, lastu, dd, uu, du, ud>>
        /\ PrintT(ToJson([x |-> x, dd |-> dd, uu |-> uu, du |-> du, ud |-> ud]))
Next == (\E s \in {-1, 1} : Sample(s)) \/ Stop
Spec == Init /\ [][Next]_vars
\* the recorder computes the definition
Up == [k \in 1..Len(Cr) |-> At(x, Cr[k]) < 0]
Def(a, b) == LET p == PeriodPairs(Up, a, b) IN [k \in 1..Len(p) |-> 2 * (Cr[p[k][2]] - Cr[p[k][1]])]
MatchesDef == /\ dd = Def(FALSE, FALSE) /\ uu = Def(TRUE, TRUE) /\ du = Def(FALSE, TRUE) /\ ud = Def(TRUE, FALSE)
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
\* periods tile the record: consecutive downcrossing periods cover first to last downcrossing
Tiles == /\ Len(dd) > 0 => Sum(dd, 1) = lastd - (LET S == {k \in 1..Len(Cr) : ~Up[k]} IN 2 * Cr[SetMin(S)] + 1)
         /\ Len(Cr) >= 2 => Sum(du, 1) + Sum(ud, 1) = 2 * (Cr[Len(Cr)] - Cr[1])
=============================================================================
