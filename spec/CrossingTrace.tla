---------------------------- MODULE CrossingTrace ---------------------------
(* Recorded calls of the crossing functions, checked against Crossing.tla. *)
EXTENDS Integers, Sequences, FiniteSets, HPReal
C == INSTANCE Crossing WITH MaxLen <- 0, inp <- <<>>, side <- 0, out <- <<>>, done <- FALSE

If(b, name) == IF b THEN {} ELSE {name}

\* findcross: x and level are exact integers (scaled by the recorder)
VFind(e) ==
    LET want == C!FindCross(C!SignSeq(e.x, e.v), e.kindarg)
    IN  IF e.r.kind # "ints" THEN {"returns-indices"}
        ELSE If(e.r.v = want, "exact-crossings-" \o e.kindarg)

\* linear interpolation of the crossing times between samples i and i+1
Inter(t, f, i, v) ==
    HAdd(t[i], HDiv(HMul(HSub(v, f[i]), HSub(t[i + 1], t[i])), HSub(f[i + 1], f[i])))
VEcross(e) ==
    IF e.r.kind # "reals" \/ Len(e.r.v) # Len(e.ind) THEN {"one-time-per-crossing"}
    ELSE UNION {LET i == e.ind[k] + 1
                    w == Inter(e.t, e.f, i, e.v)
                IN  If(HClose(e.r.v[k], w, HMul("1e-11", HMax("1", HAbs(e.t[i + 1]))), "1e-11"), "interpolated-time")
                    \cup If(HLe(HSub(e.t[i], "1e-9"), e.r.v[k]) /\ HLe(e.r.v[k], HAdd(e.t[i + 1], "1e-9")),
                            "time-between-samples")
                : k \in 1..Len(e.ind)}

Verdict(st, e) ==
    CASE e.op = "findcross" -> VFind(e)
      [] e.op = "ecross" -> VEcross(e)
      [] e.op = "same" -> If(e.a = e.b, "implementations-agree")
      [] OTHER -> {"unknown-operation"}
After(st, e) == st

VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
