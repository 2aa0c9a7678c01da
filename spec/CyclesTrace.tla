----------------------------- MODULE CyclesTrace ----------------------------
EXTENDS Cycles, HPReal, TLC
If(b, name) == IF b THEN {} ELSE {name}
I2S(i) == ToString(i)
VPairs(e) ==
    IF e.r.kind # "pairs" THEN {"returns-cycle-pairs"}
    ELSE LET w == IF e.h = 0 THEN e.x ELSE Pick(e.x, FindRfc(e.x, e.h))
             want == Pairs(w, e.kindarg)
         IN  If(e.r.v = want, "pairs-in-order") \cup If(e.r.time = e.t[Len(e.t)] - e.t[1], "record-length")
VLc(e) ==
    IF e.r.kind # "spectrum" THEN {"returns-spectrum"}
    ELSE If(e.r.levels = Levels(e.ps), "levels-are-the-extremes")
         \cup If(e.r.counts = Spectrum(e.ps, e.k), IF e.named THEN "named-kind" ELSE "crossing-counts-kind" \o ToString(e.k))
\* intensities: counts divided by the record length
VInt(e) ==
    IF e.r.kind # "reals" THEN {"returns-intensity"}
    ELSE LET c == Spectrum(e.ps, e.k)
         IN  IF Len(e.r.v) # Len(c) THEN {"levels-are-the-extremes"}
             ELSE If(\A i \in 1..Len(c) : HClose(e.r.v[i], HDiv(ToString(c[i]), e.time), "0", "1e-12"), "intensity-is-count-per-time")
\* damage: sum over cycles of (range/2)^beta, times K
VDamage(e) ==
    IF e.r.kind # "reals" THEN {"returns-damage"}
    ELSE If(Len(e.r.v) = Len(e.beta) /\ \A j \in 1..Len(e.beta) :
            HClose(e.r.v[j], HMul(e.K, HSum([i \in 1..Len(e.ps) |->
                HRPow(HDiv(HAbs(HSub(e.ps[i][2], e.ps[i][1])), "2"), e.beta[j])])), "1e-300", "1e-10"),
            "palmgren-miner-sum")
VMat(e) == IF e.r.kind # "matrix" THEN {"returns-matrix"}
           ELSE If(e.r.v = Matrix(e.ps, e.a, e.d, e.n, e.ddef), "cycle-matrix-ddef" \o ToString(e.ddef))
                \cup If(e.r.levels = [k \in 1..e.n |-> e.a + (k - 1) * e.d], "matrix-levels")
Verdict(st, e) ==
    CASE e.op = "cycle_pairs" -> VPairs(e)
      [] e.op = "level_crossings" -> VLc(e)
      [] e.op = "intensity" -> VInt(e)
      [] e.op = "damage" -> VDamage(e)
      [] e.op = "cycle_matrix" -> VMat(e)
      [] e.op = "same" -> If(e.a = e.b, "same-" \o e.what)
      [] OTHER -> {"unknown-operation"}
After(st, e) == st
VARIABLES l, st, bad
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
