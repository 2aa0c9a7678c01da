----------------------------- MODULE WaveTheory -----------------------------
(* Linear wave theory: dispersion relation with current, and the transfer    *)
(* functions from surface elevation exp(i(kx x + ky y - w t)) to a sensor.    *)
EXTENDS LinAlg
\* cosh and sinh over exp(x), to allow large arguments (x >= 0)
CoshE(x) == HDiv(HAdd("1", HExp(HMul("-2", x))), "2")
SinhE(x) == HDiv(HSub("1", HExp(HMul("-2", x))), "2")
FE(x, s) == IF s > 0 THEN CoshE(x) ELSE SinhE(x)
Sg(x, s) == IF s < 0 /\ HLt(x, "0") THEN "-1" ELSE "1"
\* f(a, sa) / f(b, sb) with f(x, 1) = cosh x and f(x, -1) = sinh x
HypRatio(a, b, sa, sb) ==
    LET p == HAbs(a)  q == HAbs(b)
    IN  HMul(HMul(HMul(Sg(a, sa), Sg(b, sb)), HExp(HSub(p, q))), HDiv(FE(p, sa), FE(q, sb)))
\* w2 = w^2 / g
Disp(k, h) == IF h = "inf" THEN HAbs(k) ELSE HMul(HAbs(k), HTanh(HMul(HAbs(k), h)))
\* a complex number is <<re, im>>
CMul(x, y) == <<HSub(HMul(x[1], y[1]), HMul(x[2], y[2])), HAdd(HMul(x[1], y[2]), HMul(x[2], y[1]))>>
CScale(s, x) == <<HMul(s, x[1]), HMul(s, x[2])>>
CAbs(x) == HSqrt(HAdd(HMul(x[1], x[1]), HMul(x[2], x[2])))
CClose(x, y, tol) == HClose(x[1], y[1], tol, "0") /\ HClose(x[2], y[2], tol, "0")
One == <<"1", "0">>
I1 == <<"0", "1">>
MI == <<"0", "-1">>
MOne == <<"-1", "0">>
\* depth factor of a sensor at elevation z for wave number k
Rat(c, k, sa, sb) ==
    IF c.h = "inf" THEN HExp(HMul(k, IF c.igam = 2 THEN HNeg(c.z) ELSE c.z))
    ELSE HypRatio(HMul(k, IF c.igam = 1 THEN HAdd(c.h, c.z) ELSE IF c.igam = 2 THEN HSub(c.h, c.z) ELSE c.z), HMul(k, c.h), sa, sb)
Rad(d) == HDiv(HMul(d, HPi), "180")
Cx(c, th) == HMul(c.bet, HCos(HAdd(HSub(th, Rad(c.thx)), HDiv(HPi, "2"))))
Cy(c, th) == HMul(c.bet, HSin(HSub(th, Rad(c.thy))))
\* the transfer function of sensor c.type for frequency w, wave number k, direction th
Transfer(c, w, k, th) ==
    LET cx == Cx(c, th)  cy == Cy(c, th)
        ph == HMul(k, HAdd(HMul(c.x, cx), HMul(c.y, cy)))
        ee == <<HCos(ph), HSin(ph)>>
        w2 == HMul(w, w)  k2 == HMul(k, k)
        base == CASE c.type = "n" -> One
                  [] c.type = "n_t" -> CScale(w, MI)
                  [] c.type = "n_tt" -> CScale(w2, MOne)
                  [] c.type = "n_x" -> CScale(HMul(k, cx), I1)
                  [] c.type = "n_y" -> CScale(HMul(k, cy), I1)
                  [] c.type = "n_xx" -> CScale(HMul(k2, HMul(cx, cx)), MOne)
                  [] c.type = "n_yy" -> CScale(HMul(k2, HMul(cy, cy)), MOne)
                  [] c.type = "n_xy" -> CScale(HMul(k2, HMul(cx, cy)), MOne)
                  [] c.type = "p" -> CScale(HMul(HMul(c.rho, c.g), Rat(c, k, 1, 1)), One)
                  [] c.type = "u" -> CScale(HMul(HMul(w, cx), Rat(c, k, 1, -1)), One)
                  [] c.type = "v" -> CScale(HMul(HMul(w, cy), Rat(c, k, 1, -1)), One)
                  [] c.type = "w" -> CScale(HMul(w, Rat(c, k, -1, -1)), MI)
                  [] c.type = "u_t" -> CScale(HMul(HMul(w2, cx), Rat(c, k, 1, -1)), MI)
                  [] c.type = "v_t" -> CScale(HMul(HMul(w2, cy), Rat(c, k, 1, -1)), MI)
                  [] c.type = "w_t" -> CScale(HMul(w2, Rat(c, k, -1, -1)), MOne)
                  [] c.type = "x_p" -> CScale(HMul(cx, Rat(c, k, 1, -1)), I1)
                  [] c.type = "y_p" -> CScale(HMul(cy, Rat(c, k, 1, -1)), I1)
                  [] c.type = "z_p" -> CScale(Rat(c, k, -1, -1), One)
    IN  CMul(CScale(IF c.igam = 2 THEN "-1" ELSE "1", base), ee)
=============================================================================
