------------------------------ MODULE DctTrace ------------------------------
EXTENDS Dct
VARIABLES l, st, bad
If(c, name) == IF c THEN {} ELSE {name}
\* axes counted from 1; lens: the lengths along them
VTrans(e) ==
    LET r == ND(e.x, e.sh, e.axes, e.lens, e.f, e.inv, e.t, e.ortho)
        b == HAdd("1e-300", HSum([i \in 1..Len(e.x) |-> HAbs(e.x[i])]))
    IN  IF e.refuse THEN If(e.kind = "ValueError", "refused")
        ELSE IF e.kind # "ok" THEN {"transforms"}
        ELSE IF e.rsh # r.sh THEN {"shape"}
        ELSE If(Len(e.r) = Len(r.v) /\ \A i \in 1..Len(e.r) : HClose(e.r[i], r.v[i], HMul("1e-11", b), "0"), "transform")
VBack(e) == LET b == HAdd("1e-300", HSum([i \in 1..Len(e.x) |-> HAbs(e.x[i])])) IN
            IF e.kind # "ok" THEN {"transforms"} ELSE If(e.rsh = e.sh /\ Len(e.r) = Len(e.x) /\ \A i \in 1..Len(e.x) : HClose(e.r[i], e.x[i], HMul("1e-11", b), "0"), "inverse")
\* shiftdim: n leading dimensions wrapped to the end / singletons in front / leading ones removed
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = 1 THEN Strip(Tail(s)) ELSE s
RECURSIVE Unravel(_, _)
Unravel(p, sh) == IF sh = <<>> THEN <<>> ELSE LET s == Size(Tail(sh)) IN <<p \div s>> \o Unravel(p % s, Tail(sh))
RECURSIVE Ravel(_, _)
Ravel(ix, sh) == IF sh = <<>> THEN 0 ELSE Head(ix) * Size(Tail(sh)) + Ravel(Tail(ix), Tail(sh))
Rot(s, n) == [i \in 1..Len(s) |-> s[((i - 1 + n) % Len(s)) + 1]]
VShift(e) ==
    IF e.kind # "ok" THEN {"shifts"}
    ELSE IF e.none THEN If(e.rsh = Strip(e.sh) /\ e.r = e.x, "leading-ones")
    ELSE IF e.n < 0 THEN If(e.rsh = [i \in 1..(-e.n) |-> 1] \o e.sh /\ e.r = e.x, "singletons")
    ELSE LET out == Rot(e.sh, e.n) IN
         If(e.rsh = out /\ Len(e.r) = Len(e.x) /\ \A p \in 0..Len(e.x) - 1 : e.r[Ravel(Rot(Unravel(p, e.sh), e.n), out) + 1] = e.x[p + 1], "rotated")
Verdict(s, e) == CASE e.op = "transform" -> VTrans(e) [] e.op = "back" -> VBack(e) [] e.op = "shiftdim" -> VShift(e) [] e.op = "same" -> If(e.a = e.b, e.what)
After(s, e) == s
T == INSTANCE TraceLoop WITH Start <- 0
Spec == T!Spec
=============================================================================
