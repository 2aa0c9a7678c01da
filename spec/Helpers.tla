------------------------------- MODULE Helpers ------------------------------
(***************************************************************************)
(* Bit fields, linear/multiple indices, rotations and conditional          *)
(* evaluation.                                                             *)
(***************************************************************************)
EXTENDS LinAlg
(* ---- bits of non-negative integers ------------------------------------- *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Bit(i, b) == (i \div Pow2(b)) % 2
SetBit(i, b, v) == i + (v - Bit(i, b)) * Pow2(b)
Bits(i, n) == [k \in 1..n |-> Bit(i, k - 1)]
RECURSIVE FromBits(_, _)
FromBits(bs, k) == IF k > Len(bs) THEN 0 ELSE bs[k] * Pow2(k - 1) + FromBits(bs, k + 1)
(* ---- linear index <-> subscripts ---------------------------------------- *)
RECURSIVE LinC(_, _, _)
LinC(sh, sub, k) == IF k > Len(sh) THEN 0
                    ELSE LET RECURSIVE P(_)
                             P(j) == IF j > Len(sh) THEN 1 ELSE sh[j] * P(j + 1)
                         IN  sub[k] * P(k + 1) + LinC(sh, sub, k + 1)
RECURSIVE LinF(_, _, _, _)
LinF(sh, sub, k, stride) == IF k > Len(sh) THEN 0 ELSE sub[k] * stride + LinF(sh, sub, k + 1, stride * sh[k])
Lin(sh, sub, order) == IF order = "C" THEN LinC(sh, sub, 1) ELSE LinF(sh, sub, 1, 1)
RECURSIVE Prod(_, _)
Prod(sh, k) == IF k > Len(sh) THEN 1 ELSE sh[k] * Prod(sh, k + 1)
InShape(sh, sub) == Len(sub) = Len(sh) /\ \A k \in 1..Len(sh) : sub[k] >= 0 /\ sub[k] < sh[k]
(* ---- conditional evaluation --------------------------------------------- *)
\* index (1-based) of the last true condition at position p, 0 if none
LastTrue(conds, p) == LET S == {k \in 1..Len(conds) : conds[k][p]} IN
                      IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
FirstTrue(conds, p) == LET S == {k \in 1..Len(conds) : conds[k][p]} IN
                      IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
(* ---- rotations ----------------------------------------------------------- *)
Rad(d) == HDiv(HMul(d, HPi), "180")
Rz(a) == <<<<HCos(a), HNeg(HSin(a)), "0">>, <<HSin(a), HCos(a), "0">>, <<"0", "0", "1">>>>
Ry(a) == <<<<HCos(a), "0", HSin(a)>>, <<"0", "1", "0">>, <<HNeg(HSin(a)), "0", HCos(a)>>>>
Rx(a) == <<<<"1", "0", "0">>, <<"0", HCos(a), HNeg(HSin(a))>>, <<"0", HSin(a), HCos(a)>>>>
Rot(h, p, r) == MatMul(Rz(Rad(h)), MatMul(Ry(Rad(p)), Rx(Rad(r))))
=============================================================================
