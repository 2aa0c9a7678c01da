-------------------------------- MODULE Dct ---------------------------------
(* Discrete cosine and sine transforms along the axes of an array; arrays    *)
(* are stored flat, last axis fastest.                                       *)
EXTENDS HPReal, Integers, Sequences, FiniteSets, TLC
PiF(a, b) == HDiv(HMul(HPi, HReal(a)), HReal(b))
\* factor of x[n] in y[k], n and k from zero, length N; unnormalized
CosU(t, k, n, N) ==
    CASE t = 1 -> IF n = 0 THEN "1" ELSE IF n = N - 1 THEN (IF k % 2 = 0 THEN "1" ELSE "-1") ELSE HMul("2", HCos(PiF(k * n, N - 1)))
      [] t = 2 -> HMul("2", HCos(PiF(k * (2 * n + 1), 2 * N)))
      [] t = 3 -> IF n = 0 THEN "1" ELSE HMul("2", HCos(PiF((2 * k + 1) * n, 2 * N)))
SinU(t, k, n, N) ==
    CASE t = 1 -> HMul("2", HSin(PiF((k + 1) * (n + 1), N + 1)))
      [] t = 2 -> HMul("2", HSin(PiF((k + 1) * (2 * n + 1), 2 * N)))
      [] t = 3 -> IF n = N - 1 THEN (IF k % 2 = 0 THEN "1" ELSE "-1") ELSE HMul("2", HSin(PiF((2 * k + 1) * (n + 1), 2 * N)))
\* orthonormal cosine transforms of type 2 and 3: one is the transpose of the other
Orth2(k, n, N) == LET s == IF k = 0 THEN HSqrt(HFrac(1, 4 * N)) ELSE HSqrt(HFrac(1, 2 * N))
                     IN HMul(s, CosU(2, k, n, N))
InvType(t) == CASE t = 1 -> 1 [] t = 2 -> 3 [] t = 3 -> 2
\* matrix entry of dct, idct, dst, idst (f in {"c", "s"})
Entry(f, inv, t, ortho, k, n, N) ==
    LET u == IF inv THEN InvType(t) ELSE t
    IN  IF ortho /\ u = 2 THEN Orth2(k, n, N)
        ELSE IF ortho /\ u = 3 THEN Orth2(n, k, N)
        ELSE IF f = "c" THEN CosU(u, k, n, N) ELSE SinU(u, k, n, N)
Matrix(f, inv, t, ortho, N) == TLCEval([k \in 1..N |-> [n \in 1..N |-> Entry(f, inv, t, ortho, k - 1, n - 1, N)]])
RECURSIVE ProdTo(_, _)
ProdTo(sh, k) == IF k = 0 THEN 1 ELSE sh[k] * ProdTo(sh, k - 1)
Size(sh) == ProdTo(sh, Len(sh))
Stride(sh, a) == Size(sh) \div ProdTo(sh, a)
\* transform along axis a (from 1) to length m: pad with zeros or truncate
Along(x, sh, a, m, M) ==
    LET st == Stride(sh, a)  n == sh[a]
        out == [sh EXCEPT ![a] = m]
    IN  TLCEval([q \in 1..Size(out) |->
            LET p == q - 1  inner == p % st  k == (p \div st) % m  outer == p \div (st * m)
            IN  HSum([j \in 1..(IF n < m THEN n ELSE m) |-> HMul(M[k + 1][j], x[outer * st * n + (j - 1) * st + inner + 1])])])
RECURSIVE ND(_, _, _, _, _, _, _, _)
ND(x, sh, axes, lens, f, inv, t, ortho) ==
    IF axes = <<>> THEN [v |-> x, sh |-> sh]
    ELSE LET a == Head(axes)  m == Head(lens)
         IN  ND(Along(x, sh, a, m, Matrix(f, inv, t, ortho, m)), [sh EXCEPT ![a] = m], Tail(axes), Tail(lens), f, inv, t, ortho)
=============================================================================
