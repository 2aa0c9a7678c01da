----------------------------- MODULE WavesTrace -----------------------------
EXTENDS Turning, HPReal, TLC
W == INSTANCE Waves WITH MaxLen <- 0, x <- <<>>, lastd <- 0, lastu <- 0, dd <- 0, uu <- 0, du <- 0,
                         ud <- 0, done <- TRUE
If(b, name) == IF b THEN {} ELSE {name}
Near(a, b) == HClose(a, b, "1e-9", "1e-9")
AllNear(s, w) == Len(s) = Len(w) /\ \A i \in 1..Len(w) : Near(s[i], w[i])

\* e.x integer samples relative to level e.v (integer), e.f the same samples as reals, e.t times
Cross(e, kind) == X!FindCross(X!SignSeq(e.x, e.v), kind)
Time(e, c) == W!CrossTime(e.t, e.f, c + 1, e.fv)
VPeriods(e) ==
    LET c == Cross(e, e.wdef)
        up == [k \in 1..Len(c) |-> At(e.x, c[k]) < e.v]
        p == W!PeriodPairs(up, e.from = "u", e.to = "u")
        want == [k \in 1..Len(p) |-> HSub(Time(e, c[p[k][2]]), Time(e, c[p[k][1]]))]
        \* known finding F07: a record that starts with a downcrossing is read one crossing late, so that
        \* the roles of up- and downcrossings are exchanged
        up1 == [k \in 1..(Len(c) - 1) |-> up[k + 1]]
        q == W!PeriodPairs(up1, e.from # "u", e.to # "u")
        late == [k \in 1..Len(q) |-> HSub(Time(e, c[q[k][2] + 1]), Time(e, c[q[k][1] + 1]))]
    IN  IF e.r.kind # "reals" THEN {"returns-periods"}
        ELSE IF Len(c) > 0 /\ ~up[1] /\ ~AllNear(e.r.v, want) /\ AllNear(e.r.v, late) /\ e.ix = c
             THEN {"starts-one-crossing-late"}
        ELSE If(Len(e.r.v) = Len(want), "number-of-periods")
             \cup If(AllNear(e.r.v, want), "period-" \o e.from \o "2" \o e.to)
             \cup If(\A i \in 1..Len(e.r.v) : HLt("0", e.r.v[i]), "period-positive")
             \cup If(e.ix = c, "crossing-indices")

\* wave parameters from trough waves around level 0
Params(e) ==
    LET c == Cross(e, "tw")
        tc == TroughCrest(e.x, e.v, c)
        n == Len(tc)
        nc == n \div 2                       \* crests
        z(k) == Time(e, c[k + 1])            \* 0-based crossing number
        crest(i) == tc[2*i]   trough(i) == tc[2*i - 1]
        Ac == [i \in 1..nc |-> e.f[crest(i) + 1]]
        Att == [i \in 1..(nc + 1) |-> HNeg(e.f[trough(i) + 1])]
        pos(a) == IF HEq(a, "0") THEN e.dT ELSE a
        Tcf == [i \in 1..nc |-> pos(HSub(e.t[crest(i) + 1], z(2*i - 1)))]
        Tcb == [i \in 1..nc |-> pos(HSub(z(2*i), e.t[crest(i) + 1]))]
        Td == [i \in 1..nc |-> HSub(z(2*i), z(2*i - 2))]
        Tu == [i \in 1..nc |-> HSub(z(2*i + 1), z(2*i - 1))]
    IN  [Ac |-> Ac, At |-> Att, Tcf |-> Tcf, Tcb |-> Tcb, Td |-> Td, Tu |-> Tu,
         Hd |-> [i \in 1..nc |-> HAdd(Ac[i], Att[i])], Hu |-> [i \in 1..nc |-> HAdd(Ac[i], Att[i + 1])]]
VParams(e) ==
    IF e.r.kind # "params" THEN {"returns-wave-parameters"}
    ELSE LET p == Params(e)
         IN  UNION {If(AllNear(e.r[k], p[k]), "wave-parameter-" \o k) : k \in {"Ac", "At", "Hu", "Hd", "Tu", "Td", "Tcf", "Tcb"}}
VSteep(e) ==
    IF e.r.kind # "sh" THEN {"returns-steepness-and-height"}
    ELSE LET p == Params(e)
             n == Len(p.Ac)
             twopi == HMul("2", HPi)
             Div(a, b) == HDiv(a, b)
             S(i) == CASE e.k = 0 -> Div(p.Ac[i], HMin(p.Tcf[i], p.Tcb[i]))
                       [] e.k = 1 -> Div(p.Ac[i], p.Tcf[i])
                       [] e.k = -1 -> Div(p.Ac[i], p.Tcb[i])
                       [] e.k = 2 -> Div(HMul(twopi, p.Ac[i]), HMul(e.g, HMul(p.Td[i], p.Tcf[i])))
                       [] e.k = -2 -> Div(HMul(twopi, p.Ac[i]), HMul(e.g, HMul(p.Tu[i], p.Tcb[i])))
                       [] e.k = 3 -> Div(HMul(twopi, p.Hd[i]), HMul(e.g, HMul(p.Td[i], p.Td[i])))
                       [] e.k = -3 -> Div(HMul(twopi, p.Hu[i]), HMul(e.g, HMul(p.Tu[i], p.Tu[i])))
             \* the height belongs to the shorter side; when both are equal to rounding either is right
             HOk(i) == LET h == e.r.h[i] IN
                       IF e.k > 0 THEN Near(h, p.Hd[i]) ELSE IF e.k < 0 THEN Near(h, p.Hu[i])
                       ELSE \/ (HLt(p.Tcf[i], HAdd(p.Tcb[i], "1e-9")) /\ Near(h, p.Hd[i]))
                            \/ (HLt(HSub(p.Tcb[i], "1e-9"), p.Tcf[i]) /\ Near(h, p.Hu[i]))
         IN  If(Len(e.r.s) = n /\ Len(e.r.h) = n, "one-wave-per-crest")
             \cup (IF Len(e.r.s) # n \/ Len(e.r.h) # n THEN {}
                   ELSE If(\A i \in 1..n : HClose(e.r.s[i], S(i), "1e-12", "1e-7"), "steepness-kind" \o ToString(e.k))
                        \cup If(\A i \in 1..n : HOk(i), "height-kind" \o ToString(e.k)))
\* periods that start or end at a trough, crest, minimum or maximum must be times
VTcPeriods(e) ==
    LET c == Cross(e, "all")
        tc == TroughCrest(e.x, e.v, c)
        want == [k \in 1..(Len(tc) - 2) |-> HSub(e.t[tc[k + 2] + 1], e.t[tc[k] + 1])]
        isT(k) == At(e.x, tc[k]) < e.v
        sel == SelectSeq([k \in 1..(Len(tc) - 2) |-> k], LAMBDA k : isT(k))
    IN  IF e.r.kind # "reals" THEN {"returns-periods"}
        ELSE If(AllNear(e.r.v, [i \in 1..Len(sel) |-> want[sel[i]]]), "trough-to-trough-period")
Verdict(st, e) ==
    CASE e.op = "wave_periods" -> VPeriods(e)
      [] e.op = "wave_periods_tc" -> VTcPeriods(e)
      [] e.op = "wave_parameters" -> VParams(e)
      [] e.op = "steepness" -> VSteep(e)
      [] e.op = "same" -> If(e.a = e.b, "same-" \o e.what)
      [] OTHER -> {"unknown-operation"}
After(st, e) == st
VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
