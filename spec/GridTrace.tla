----------------------------- MODULE GridTrace ------------------------------
EXTENDS Grid
VARIABLES l, st, bad
If(b, name) == IF b THEN {} ELSE {name}
SumY(s) == IF s = <<>> THEN "0" ELSE HSum(s)
SumAbs(s) == HSum([i \in 1..Len(s) |-> HAbs(s[i])])
VGrid(e) ==
    IF e.outside THEN If(e.r.kind = "error" /\ e.r.err = "ValueError", "refuses-data-outside")
    ELSE IF e.r.kind # "reals" THEN {"returns-counts"}
    ELSE LET d == Len(e.X)  inc == Len(e.X[1])
             tol == HMul("1e-10", HAdd(SumAbs(e.y), "1e-300"))
         IN  IF e.shape # [k \in 1..d |-> inc] \/ Len(e.r.v) # Ipow(inc, d) THEN {"shape"}
             ELSE If(HClose(HSum(e.r.v), SumY(e.y), tol, "0"), "mass-conserved")
                  \cup If(\A k \in 1..d : HClose(
                         HSum([p \in 1..Len(e.r.v) |-> HMul(e.r.v[p], HSub(e.X[k][Decode(p, d, inc)[k]], e.X[k][1]))]),
                         HSum([i \in 1..Len(e.y) |-> HMul(e.y[i], HSub(e.data[k][i], e.X[k][1]))]),
                         HMul(tol, HSub(e.X[k][inc], e.X[k][1])), "0"), "mean-conserved")
                  \cup If(~e.full \/ HAllClose(e.r.v, Counts(e.data, e.X, e.y), tol, "0"), "linear-weights")
\* accumulate a by map: one function of the values collected in each cell, in order
Collect(map, a, key) == LET s == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : map[i] = key)
                        IN  TLCEval([k \in 1..Len(s) |-> a[s[k]]])
RECURSIVE Fold(_, _)
Fold(f, s) == IF Len(s) = 1 THEN s[1]
              ELSE LET t == Fold(f, SubSeq(s, 1, Len(s) - 1))  x == s[Len(s)]
                   IN  CASE f = "sum" -> t + x [] f = "max" -> (IF x > t THEN x ELSE t) [] f = "min" -> (IF x < t THEN x ELSE t)
                         [] f = "prod" -> t * x [] f = "last" -> x [] f = "len" -> 0
ApplyF(f, s) == IF f = "len" THEN Len(s) ELSE Fold(f, s)
\* keys are sequences of indices; the result is given as a sequence of [k, v] pairs over the whole output shape
VAccum(e) ==
    IF e.r.kind # "pairs" THEN {"returns-array"}
    ELSE If(e.r.shape = e.shape, "shape")
         \cup If(\A p \in 1..Len(e.r.v) :
                LET s == Collect(e.map, e.a, e.r.v[p].k)
                IN  e.r.v[p].v = (IF s = <<>> THEN e.fill ELSE ApplyF(e.f, s)), "accumulated-value")
Verdict(s, e) ==
    CASE e.op = "gridcount" -> VGrid(e)
      [] e.op \in {"accum", "accumsum", "accumsum_sparse"} -> VAccum(e)
      [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
