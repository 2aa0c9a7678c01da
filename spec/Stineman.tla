------------------------------ MODULE Stineman ------------------------------
(* Stineman's rational interpolation (1980) with his slopes, in x > 2 points. *)
EXTENDS HPReal, Integers, Sequences, TLC
Dx(x, i) == HSub(x[i + 1], x[i])
Sec(x, y, i) == HDiv(HSub(y[i + 1], y[i]), Dx(x, i))
StSlopes(x, y) ==
    LET n == Len(x)
        Sq(v) == HMul(v, v)
        In(k) == LET a == Dx(x, k - 1)  b == Dx(x, k)  p == Sec(x, y, k - 1)  q == Sec(x, y, k)
                     wp == HMul(a, HMul(Sq(b), HAdd("1", Sq(q))))       \* squared chord lengths of the other side
                     wq == HMul(b, HMul(Sq(a), HAdd("1", Sq(p))))
                 IN  HDiv(HAdd(HMul(wp, p), HMul(wq, q)), HAdd(wp, wq))
        inner == TLCEval([k \in 2..(n - 1) |-> In(k)])
        End(s, yp) == LET d == HSub(s, yp)
                      IN  IF HLe("0", HMul(s, d)) THEN HSub(HMul("2", s), yp)
                          ELSE HAdd(s, HDiv(HMul(HAbs(s), d), HAdd(HAbs(s), HAbs(d))))
    IN  TLCEval([k \in 1..n |-> IF k = 1 THEN End(Sec(x, y, 1), inner[2]) ELSE IF k = n THEN End(Sec(x, y, n - 1), inner[n - 1]) ELSE inner[k]])
\* value in segment i
StVal(x, y, yp, i, t) ==
    LET s == Sec(x, y, i)  yo == HAdd(y[i], HMul(s, HSub(t, x[i])))
        d1 == HMul(HSub(yp[i], s), HSub(t, x[i]))
        d2 == HMul(HSub(yp[i + 1], s), HSub(t, x[i + 1]))
        p == HMul(d1, d2)
    IN  IF HLt("0", p) THEN HAdd(yo, HDiv(p, HAdd(d1, d2)))
        ELSE IF HLt(p, "0") THEN HAdd(yo, HDiv(HMul(p, HSub(HSub(HMul("2", t), x[i]), x[i + 1])), HMul(HSub(d1, d2), Dx(x, i))))
        ELSE yo
=============================================================================
