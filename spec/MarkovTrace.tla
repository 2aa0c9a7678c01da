----------------------------- MODULE MarkovTrace ----------------------------
EXTENDS Markov
If(b, name) == IF b THEN {} ELSE {name}
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i])
Near(a, b) == Same(a, b) /\ \A i \in 1..Len(a) : \A j \in 1..Len(a[i]) : HClose(a[i][j], b[i][j], "1e-9", "1e-8")
VInt(e, want) == IF e.r.kind # "matrix" THEN {"returns-integer-matrix"} ELSE If(e.r.v = want, e.op)
VRfc(e) ==
    IF e.r.kind # "reals" THEN {"returns-matrix"}
    ELSE LET w == TLCEval(Rainflow(e.fm, e.fM))
             n == Len(e.fm)
         IN  If(Near(e.r.v, w), "rainflow-matrix")
             \cup (IF ~Same(e.r.v, e.fm) THEN {} ELSE
                   If(\A i \in 1..n : HClose(HSum(e.r.v[i]), HSum(e.fm[i]), "1e-9", "1e-9"), "maxima-kept")
                   \cup If(\A j \in 1..n : HClose(HSum(Col(e.r.v, j)), HSum(Col(e.fm, j)), "1e-9", "1e-9"), "minima-kept"))
VNear(e) == IF e.a.kind # "reals" \/ e.b.kind # "reals" THEN {"returns-matrix"} ELSE If(Near(e.a.v, e.b.v), e.what)
Verdict(st, e) ==
    CASE e.op = "cmat2nt" -> VInt(e, Cmat2Nt(e.F))
      [] e.op = "nt2cmat" -> VInt(e, Nt2Cmat(e.F))
      [] e.op = "fr2nt" -> VInt(e, Fr2Nt(e.F))
      [] e.op = "nt2fr" -> VInt(e, Nt2Fr(e.F, e.k))
      [] e.op = "mctp2rfc" -> VRfc(e)
      [] e.op = "near" -> VNear(e)
      [] e.op = "same" -> If(e.a = e.b, "same-" \o e.what)
      [] OTHER -> {"unknown-operation"}
After(st, e) == st
VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
