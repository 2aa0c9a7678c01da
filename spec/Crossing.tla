------------------------------ MODULE Crossing ------------------------------
(***************************************************************************)
(* Level crossings of a sampled signal.                                    *)
(*                                                                         *)
(* A signal relative to a level is a sequence s of signs (-1, 0, +1) of    *)
(* x[i]-v.  Definitional part: Crossings(s).  Operational part: the stream *)
(* machine (Init/Next below) that sees one sample at a time and remembers  *)
(* only on which side of the level the signal was last; this is the shape  *)
(* of the implementation.  TLC checks for every sign sequence up to MaxLen *)
(* that the machine's output is exactly the definition, at every step, and *)
(* prints each complete behaviour so that it can be replayed into the code.*)
(* Indices are 0-based, as in the library.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Signs == {-1, 0, 1}
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
\* signs of the integer sequence x relative to the integer level v
SignSeq(x, v) == [i \in 1..Len(x) |-> IF x[i] < v THEN -1 ELSE IF x[i] > v THEN 1 ELSE 0]

\* side the signal was last on, looking at the first k samples (0: never off the level)
LastSide(s, k) ==
    LET nz == {j \in 1..k : s[j] # 0}
    IN  IF nz = {} THEN 0 ELSE s[CHOOSE j \in nz : \A m \in nz : m <= j]

\* sample i -> i+1 (1-based) leaves the level for good on the other side
IsCross(s, i) == /\ s[i + 1] # 0
                 /\ LastSide(s, i) \in {0, -s[i + 1]}
IsUp(s, i)   == IsCross(s, i) /\ s[i + 1] > 0
IsDown(s, i) == IsCross(s, i) /\ s[i + 1] < 0

\* fast equivalent of {i : IsCross(s,i)} in increasing order: fold carrying the last side
RECURSIVE CrossFold(_, _, _, _)
CrossFold(s, i, side, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF s[i] = 0 THEN CrossFold(s, i + 1, side, acc)
    ELSE CrossFold(s, i + 1, s[i],
                   IF i > 1 /\ side \in {0, -s[i]} THEN Append(acc, i - 2) ELSE acc)

\* 0-based indices of all crossings
CrossIdx(s) == CrossFold(s, 1, 0, <<>>)

IsUp0(s, k)   == s[k + 2] > 0     \* direction of the crossing with 0-based index k

RECURSIVE KeepDir(_, _, _, _)
KeepDir(s, c, j, up) ==
    IF j > Len(c) THEN <<>>
    ELSE (IF IsUp0(s, c[j]) = up THEN <<c[j]>> ELSE <<>>) \o KeepDir(s, c, j + 1, up)

DropFirst(c) == IF c = <<>> THEN c ELSE SubSeq(c, 2, Len(c))
DropLast(c)  == IF c = <<>> THEN c ELSE SubSeq(c, 1, Len(c) - 1)

\* crossings that delimit whole waves: start in direction `up`, and their number is
\* odd (a sequence of complete down/up-crossing waves) or even (troughs / crests)
WaveCross(s, c, up, odd) ==
    LET a == IF c # <<>> /\ IsUp0(s, c[1]) # up THEN DropFirst(c) ELSE c
    IN  IF (Len(a) % 2 = 1) = odd THEN a ELSE DropLast(a)

FindCross(s, kind) ==
    LET c == CrossIdx(s)
    IN  CASE kind = "u"  -> KeepDir(s, c, 1, TRUE)
          [] kind = "d"  -> KeepDir(s, c, 1, FALSE)
          [] kind = "dw" -> WaveCross(s, c, FALSE, TRUE)
          [] kind = "uw" -> WaveCross(s, c, TRUE, TRUE)
          [] kind = "tw" -> WaveCross(s, c, FALSE, FALSE)
          [] kind = "cw" -> WaveCross(s, c, TRUE, FALSE)
          [] OTHER       -> c

Kinds == {"all", "u", "d", "dw", "uw", "tw", "cw"}

-----------------------------------------------------------------------------
(* The stream machine. *)
CONSTANT MaxLen
VARIABLES inp, side, out, done
mvars == <<inp, side, out, done>>

MInit == inp = <<>> /\ side = 0 /\ out = <<>> /\ done = FALSE

OnLevel == /\ ~done /\ Len(inp) < MaxLen
           /\ inp' = Append(inp, 0)
           /\ UNCHANGED <<side, out, done>>
SameSide == /\ ~done /\ Len(inp) < MaxLen /\ side # 0
            /\ inp' = Append(inp, side)
            /\ UNCHANGED <<side, out, done>>
FirstSide == /\ ~done /\ Len(inp) < MaxLen /\ side = 0
             /\ \E z \in {-1, 1} :
                  /\ inp' = Append(inp, z)
                  /\ side' = z
                  /\ out' = IF inp = <<>> THEN out ELSE Append(out, Len(inp) - 1)
             /\ UNCHANGED done
OtherSide == /\ ~done /\ Len(inp) < MaxLen /\ side # 0
             /\ inp' = Append(inp, -side)
             /\ side' = -side
             /\ out' = Append(out, Len(inp) - 1)
             /\ UNCHANGED done
Stop == /\ ~done /\ inp # <<>>
        /\ done' = TRUE
        /\ PrintT(ToJson([s |-> inp, all |-> FindCross(inp, "all"), u |-> FindCross(inp, "u"),
                          d |-> FindCross(inp, "d"), dw |-> FindCross(inp, "dw"),
                          uw |-> FindCross(inp, "uw"), tw |-> FindCross(inp, "tw"),
                          cw |-> FindCross(inp, "cw")]))
        /\ UNCHANGED <<inp, side, out>>

MNext == OnLevel \/ SameSide \/ FirstSide \/ OtherSide \/ Stop
MSpec == MInit /\ [][MNext]_mvars

\* the machine computes the definition
MatchesDefinition ==
    /\ out = CrossIdx(inp)
    /\ {out[k] : k \in 1..Len(out)} = {i - 1 : i \in {j \in 1..(Len(inp) - 1) : IsCross(inp, j)}}
\* up- and downcrossings alternate
Alternates == \A k \in 1..(Len(out) - 1) :
                 IsUp0(inp, out[k]) # IsUp0(inp, out[k + 1]) /\ out[k] < out[k + 1]
\* up and down parts partition all crossings
Partition == LET u == FindCross(inp, "u")  d == FindCross(inp, "d")
             IN  /\ Len(u) + Len(d) = Len(out)
                 /\ {u[k] : k \in 1..Len(u)} \cap {d[k] : k \in 1..Len(d)} = {}
                 /\ Len(u) - Len(d) \in {-1, 0, 1}
\* mirroring the signal in the level swaps up and down
Mirror == LET neg == [i \in 1..Len(inp) |-> -inp[i]]
          IN  FindCross(neg, "u") = FindCross(inp, "d") /\ CrossIdx(neg) = CrossIdx(inp)
\* wave sequences are well formed
Waves == /\ \A k \in {"dw", "uw"} : Len(FindCross(inp, k)) % 2 = 1 \/ FindCross(inp, k) = <<>>
         /\ \A k \in {"tw", "cw"} : Len(FindCross(inp, k)) % 2 = 0
         /\ \A k \in {"dw", "tw"} : LET c == FindCross(inp, k) IN c # <<>> => ~IsUp0(inp, c[1])
         /\ \A k \in {"uw", "cw"} : LET c == FindCross(inp, k) IN c # <<>> => IsUp0(inp, c[1])
=============================================================================
