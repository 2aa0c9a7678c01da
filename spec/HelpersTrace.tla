---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers
If(b, name) == IF b THEN {} ELSE {name}
VInts(e, want, name) == IF e.r.kind # "ints" THEN {"returns-integers"} ELSE If(e.r.v = want, name)
Near(a, b) == HClose(a, b, "1e-12", "1e-12")
AllNear(s, w) == Len(s) = Len(w) /\ \A i \in 1..Len(w) : Near(s[i], w[i])
\* piecewise/lazyselect/lazywhere: functions are x -> a*x + b (+ c*y) in integers; e.fun[k] = <<a, c, b>>
App(f, x, y) == f[1] * x + f[2] * y + f[3]
VCond(e) ==
    LET n == Len(e.x)
        pick(p) == IF e.rule = "last" THEN LastTrue(e.conds, p) ELSE FirstTrue(e.conds, p)
        want == [p \in 1..n |-> IF pick(p) = 0 THEN e.fill ELSE App(e.fun[pick(p)], e.x[p], e.y[p])]
        \* arguments each function was called with
        args == [k \in 1..Len(e.fun) |-> LET ix == SelectSeq([p \in 1..n |-> p], LAMBDA p : e.conds[k][p])
                                         IN  [j \in 1..Len(ix) |-> <<e.x[ix[j]], e.y[ix[j]]>>]]
    IN  IF e.r.kind # "ints" THEN {"returns-array"}
        ELSE If(e.r.v = want, "branch-values")
             \cup If(\A k \in 1..Len(e.fun) : e.seen[k] = args[k], "evaluated-only-where-selected")
VReduce(e) ==
    LET ix == SelectSeq([p \in 1..Len(e.cond) |-> p], LAMBDA p : e.cond[p])
    IN  IF e.r.kind # "rows" THEN {"returns-arrays"}
        ELSE If(e.r.v = [k \in 1..Len(e.args) |-> [j \in 1..Len(ix) |-> e.args[k][ix[j]]]], "selected-elements")
VRot(e) ==
    IF e.r.kind # "reals" THEN {"returns-matrix"}
    ELSE LET R == Rot(e.h, e.p, e.q)
         IN  If(Len(e.r.v) = 3 /\ \A i \in 1..3 : AllNear(e.r.v[i], R[i]), "rotation-matrix")
VRotPt(e) ==
    IF e.r.kind # "reals" THEN {"returns-point"}
    ELSE If(\A j \in 1..Len(e.pts) : AllNear([i \in 1..3 |-> e.r.v[i][j]], MatVec(Rot(e.h, e.p, e.q), e.pts[j])), "rotated-point")
VRot2(e) == IF e.r.kind # "reals" THEN {"returns-point"}
            ELSE LET a == Rad(e.a) IN
                 If(AllNear(e.r.v, <<HSub(HMul(HCos(a), e.x), HMul(HSin(a), e.y)),
                                     HAdd(HMul(HSin(a), e.x), HMul(HCos(a), e.y))>>), "rotated-point-2d")
VPolar(e) == IF e.r.kind # "reals" THEN {"returns-coordinates"}
             ELSE LET t == e.r.v[1]  r == e.r.v[2]
                  IN  If(HClose(r, HSqrt(HAdd(HMul(e.x, e.x), HMul(e.y, e.y))), "1e-12", "1e-12"), "radius")
                      \cup If(HLe(HAbs(t), HAdd(HPi, "1e-12")), "angle-range")
                      \cup If(HClose(HMul(r, HCos(t)), e.x, "1e-11", "1e-11") /\ HClose(HMul(r, HSin(t)), e.y, "1e-11", "1e-11"), "same-point")
                      \cup If(AllNear(e.back, <<HMul(r, HCos(t)), HMul(r, HSin(t))>>), "polar-to-cartesian")
VLine(e) == IF e.r.kind # "reals" THEN {"returns-points"}
            ELSE LET d == Len(e.a)
                     f(k) == IF e.n = 1 THEN "0.5" ELSE HDiv(ToString(k - 1), ToString(e.n - 1))
                 IN  If(Len(e.r.v) = e.n /\ \A k \in 1..e.n : \A j \in 1..d :
                          HClose(e.r.v[k][j], HAdd(e.a[j], HMul(f(k), HSub(e.b[j], e.a[j]))), "1e-12", "1e-12"), "evenly-spaced-points")
RECURSIVE NP2(_, _)
NP2(x, k) == IF Pow2(k) >= x THEN k ELSE NP2(x, k + 1)
Verdict(st, e) ==
    CASE e.op = "getbit" -> VInts(e, [k \in 1..Len(e.i) |-> Bit(e.i[k], e.b[k])], "bit-read")
      [] e.op = "getbits" -> VInts(e, Bits(e.i, e.n), "bits-read")
      [] e.op = "setbit" -> VInts(e, [k \in 1..Len(e.i) |-> SetBit(e.i[k], e.b[k], e.v[k])], "bit-write")
      [] e.op = "setbits" -> If(e.r = FromBits(e.bits, 1), "bits-write")
      [] e.op = "sub2index" -> VInts(e, [k \in 1..Len(e.subs) |-> Lin(e.shape, e.subs[k], e.order)], "linear-index")
      [] e.op = "index2sub" -> If(\A k \in 1..Len(e.ind) : InShape(e.shape, e.subs[k]) /\ Lin(e.shape, e.subs[k], e.order) = e.ind[k], "subscripts")
      [] e.op \in {"piecewise", "lazyselect", "lazywhere"} -> VCond(e)
      [] e.op = "argsreduce" -> VReduce(e)
      [] e.op = "rotation_matrix" -> VRot(e)
      [] e.op = "rotate" -> VRotPt(e)
      [] e.op = "rotate_2d" -> VRot2(e)
      [] e.op = "polar" -> VPolar(e)
      [] e.op = "spaceline" -> VLine(e)
      [] e.op = "nextpow2" -> If(e.r = NP2(e.x, 0), "next-power-of-two")
      [] e.op = "smallest" -> If(/\ Len(e.r) = e.n
                                 /\ Cardinality({e.r[k] : k \in 1..e.n}) = e.n
                                 /\ \A k \in 1..(e.n - 1) : e.x[e.r[k] + 1] <= e.x[e.r[k + 1] + 1]
                                 /\ \A i \in 1..Len(e.x) : (i - 1) \in {e.r[k] : k \in 1..e.n} \/ e.x[i] >= e.x[e.r[e.n] + 1],
                                 "n-smallest")
      [] e.op = "lfind" -> If(e.r = LET a == SelectSeq([k \in 1..Len(e.x) |-> k - 1], LAMBDA k : e.x[k + 1] = e.y)
                                    IN  IF e.n = 0 \/ e.n >= Len(a) THEN a ELSE SubSeq(a, 1, e.n), "first-matches")
      [] e.op = "same" -> If(e.a = e.b, "same-" \o e.what)
      [] OTHER -> {"unknown-operation"}
After(st, e) == st
VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
