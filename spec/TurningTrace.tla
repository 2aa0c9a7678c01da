---------------------------- MODULE TurningTrace ----------------------------
(* Recorded calls of the extremum, turning point, rainflow and trough/crest *)
(* functions, checked against Turning.tla.                                  *)
EXTENDS Turning, HPReal
If(b, name) == IF b THEN {} ELSE {name}
Ints(r, want, name) == IF r.kind # "ints" THEN {"returns-indices"} ELSE If(r.v = want, name)

VExtrema(e) == Ints(e.r, Extrema(e.x), "exact-extrema")
VFindTp(e) ==
    IF e.h < 0 THEN Ints(e.r, Range0(Len(e.x)), "negative-threshold-keeps-all")
    ELSE IF ~HasTp(e.x) THEN If(e.r.kind = "none", "no-turning-points-is-none")
    ELSE Ints(e.r, FindTp(e.x, e.h, e.kindarg), "turning-points-" \o e.kindarg)

Reversed(y) == [i \in 1..Len(y) |-> y[Len(y) + 1 - i]]
VRfc(e) == CASE e.method = "rfc" -> Ints(e.r, FindRfc(e.x, e.h), "rainflow-cycles")
             [] e.method = "lt" -> Ints(e.r, FindRfcM(e.x, e.h, FALSE), "hysteresis-filter-ge")
             [] e.method = "le" -> Ints(e.r, FindRfcM(e.x, e.h, TRUE), "hysteresis-filter-gt")
VFilter(e) ==
    IF e.r.kind # "ints" THEN {"returns-values"}
    ELSE If(e.r.v = Pick(e.x, RfcFilterIdx(e.x, e.h, e.method = "le")), "filtered-values-" \o e.method)
\* container: filtered values and their times
VObj(e) ==
    LET i == FindRfc(e.x, e.h)
    IN  IF e.r.kind # "pair" THEN {"returns-turning-points"}
        ELSE If(e.r.data = Pick(e.x, i), "filtered-values")
             \cup If(e.r.args = Pick(e.t, i), "filtered-times")
\* turning points of a recorded series as a container
VTpObj(e) ==
    IF e.r.kind # "pair" THEN {"returns-turning-points"}
    ELSE LET i == FindTp(e.x, e.h, e.kindarg)
         IN  If(e.r.data = Pick(e.x, i), "turning-values") \cup If(e.r.args = Pick(e.t, i), "turning-times")

RECURSIVE LastRow(_)
LastRow(rows) == IF rows = <<>> THEN <<>>
                 ELSE IF rows[Len(rows)][1] = 0 THEN LastRow(SubSeq(rows, 1, Len(rows) - 1)) ELSE rows
\* recorded rows: [range, sum, halves] as integers (amplitude*2, mean*2, count*2)
VAstm(e) ==
    LET want == Astm(e.x)
        got == LastRow(e.r.v)
    IN  IF e.r.kind # "rows" THEN {"returns-cycle-rows"}
        ELSE If(Len(got) = Len(want), "number-of-cycles")
             \cup (IF Len(got) # Len(want) THEN {}
                   ELSE If(\A i \in 1..Len(got) : got[i][1] = want[i][1], "cycle-amplitude")
                        \cup If(\A i \in 1..Len(got) : got[i][2] = want[i][2], "cycle-mean")
                        \cup If(\A i \in 1..Len(got) : got[i][3] = want[i][3], "half-or-full"))
             \cup If(Alternating(e.x) => SumRows(got, 1) = TotVar(e.x, 1), "motion-conserved")
             \cup (IF Len(got) # Len(want) \/ Len(e.t) = 0 THEN {}
                   ELSE If(\A i \in 1..Len(got) : got[i][4] = At(e.t, want[i][4]), "cycle-begin-time")
                        \cup If(\A i \in 1..Len(got) : got[i][5] = 2 * (At(e.t, want[i][5]) - At(e.t, want[i][4])), "cycle-period"))

VTc(e) ==
    LET c == X!FindCross(X!SignSeq(e.x, e.v), e.kindarg)
    IN  IF e.r.kind # "pair" THEN {"returns-two-index-vectors"}
        ELSE IF Len(c) <= 2 THEN If(e.r.a = <<>> /\ e.r.b = <<>>, "no-waves-is-empty")
        ELSE If(e.r.b = c, "crossings") \cup If(e.r.a = TroughCrest(e.x, e.v, c), "trough-crest-between-crossings")
VTcObj(e) ==
    LET c == X!FindCross(X!SignSeq(e.x, e.v), e.kindarg)
    IN  IF e.r.kind # "pair" THEN {"returns-turning-points"}
        ELSE LET i == IF Len(c) <= 2 THEN <<>> ELSE TroughCrest(e.x, e.v, c)
             IN  If(e.r.data = Pick(e.x, i), "trough-crest-values") \cup If(e.r.args = Pick(e.t, i), "trough-crest-times")

Verdict(st, e) ==
    CASE e.op = "findextrema" -> VExtrema(e)
      [] e.op = "findtp" -> VFindTp(e)
      [] e.op = "findrfc" -> VRfc(e)
      [] e.op = "rfcfilter" -> VFilter(e)
      [] e.op = "rainflow_filter" -> VObj(e)
      [] e.op = "turning_points" -> VTpObj(e)
      [] e.op = "astm" -> VAstm(e)
      [] e.op = "findtc" -> VTc(e)
      [] e.op = "trough_crest" -> VTcObj(e)
      [] e.op = "same" -> If(e.a = e.b, "same-" \o e.what)
      [] OTHER -> {"unknown-operation"}
After(st, e) == st
VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
