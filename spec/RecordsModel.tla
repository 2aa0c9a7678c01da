---------------------------- MODULE RecordsModel ----------------------------
(* Every short record over a few levels: its spurious points and its moving *)
(* averages in whole numbers; and every short history of containers that    *)
(* are copied and assigned to, of which each must keep its own attributes.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Levels, MaxLen, Depth, Only
VARIABLES x, z, d, L, val, hist
vars == <<x, z, d, L, val, hist>>
\* ---- records, in integers
Dif(s) == [k \in 1..(Len(s) - 1) |-> s[k + 1] - s[k]]
Abs(a) == IF a < 0 THEN -a ELSE a
JumpsI(dx) == {k \in 1..Len(dx) : dx[k] > d} \cup {k - 1 : k \in {q \in 1..Len(dx) : dx[q] < -d}}
FlatI == LET dx == Dif(x) IN UNION {{k - 1, k} : k \in {q \in 1..Len(dx) : Abs(dx[q]) <= z}}
SpuriousI == JumpsI(Dif(x)) \cup JumpsI(Dif(Dif(x))) \cup {k \in 0..(Len(x) - 1) : \E e \in FlatI : Abs(k - e) <= 1}
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(SubSeq(s, 2, Len(s)))
Mid(i) == IF i < L + 1 THEN L + 1 ELSE IF i > Len(x) - L THEN Len(x) - L ELSE i
\* numerators over 2L+1, or over the length when the window does not fit
Window(i) == IF Len(x) < 2 * L + 1 THEN Total(x) ELSE Total(SubSeq(x, Mid(i) - L, Mid(i) + L))
\* ---- containers: object 1 exists, others are copies of an earlier one
Fields == {"data", "args", "note"}
Objects == 1..3
InitRecords == x \in UNION {[1..n -> Levels] : n \in 3..MaxLen} /\ z \in {0, 1} /\ d \in {1, 2} /\ L \in {1, 2} /\ val = [o \in Objects |-> [f \in Fields |-> -1]] /\ hist = <<>>
InitObjects == x = <<>> /\ z = 0 /\ d = 0 /\ L = 0 /\ val = [o \in Objects |-> [f \in Fields |-> IF o = 1 THEN 0 ELSE -1]] /\ hist = <<>>
Init == IF Only = "records" THEN InitRecords ELSE InitObjects
Report == x # <<>> /\ hist = <<>> /\ hist' = <<0>> /\ PrintT(ToJson([what |-> "record", x |-> x, z |-> z, d |-> d, L |-> L, bad |-> SpuriousI, avg |-> [i \in 1..Len(x) |-> Window(i)]])) /\ UNCHANGED <<x, z, d, L, val>>
Exists(o) == val[o]["data"] # -1
Set(o, f, v) == Exists(o) /\ val' = [val EXCEPT ![o][f] = v] /\ hist' = Append(hist, [do |-> "set", o |-> o, f |-> f, v |-> v])
Copy(o, p) == Exists(o) /\ ~Exists(p) /\ val' = [val EXCEPT ![p] = val[o]] /\ hist' = Append(hist, [do |-> "copy", o |-> o, p |-> p])
Step == x = <<>> /\ Len(hist) < Depth /\ ((\E o \in Objects, f \in Fields : Set(o, f, Len(hist) + 1)) \/ (\E o, p \in Objects : Copy(o, p))) /\ UNCHANGED <<x, z, d, L>>
        /\ (Len(hist') = Depth => PrintT(ToJson([what |-> "copies", hist |-> hist', val |-> [o \in Objects |-> val'[o]]])))
Next == Report \/ Step
Spec == Init /\ [][Next]_vars
\* a change to one object is no change to another
Own == [][\A o \in Objects : Len(hist') > Len(hist) /\ x = <<>> /\ hist'[Len(hist')].do = "set" /\ hist'[Len(hist')].o # o => val'[o] = val[o]]_vars
\* the first point of a run of equal points is spurious too, and so is what is beside it
Runs == x # <<>> => \A k \in 1..(Len(x) - 1) : x[k] = x[k + 1] => {k - 1, k} \subseteq SpuriousI
\* averages keep within the record and are exact for straight lines
Between == x # <<>> => \A i \in 1..Len(x) : LET w == IF Len(x) < 2 * L + 1 THEN Len(x) ELSE 2 * L + 1 IN (\E a \in 1..Len(x) : w * x[a] <= Window(i)) /\ (\E a \in 1..Len(x) : Window(i) <= w * x[a])
=============================================================================
