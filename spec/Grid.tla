------------------------------- MODULE Grid ---------------------------------
(* Linear binning of data on a regular grid, and accumulation by index.      *)
EXTENDS Integers, Sequences, FiniteSets, HPReal, TLC
\* weight that a datum at x gives to the grid point g when the spacing is dx
Hat(x, g, dx) == HMax("0", HSub("1", HDiv(HAbs(HSub(x, g)), dx)))
RECURSIVE HProd(_)
HProd(s) == IF s = <<>> THEN "1" ELSE HMul(s[1], HProd(Tail(s)))
\* data, X : one row per dimension;  idx : 1-based grid index per dimension
CellCount(data, X, y, idx) ==
    HSum([i \in 1..Len(data[1]) |-> HMul(y[i], HProd([k \in 1..Len(X) |->
          Hat(data[k][i], X[k][idx[k]], HSub(X[k][2], X[k][1]))]))])
\* grid indices of position p (1-based) of the flattened result, which has the
\* second dimension first (the layout of meshgrid), then the first, then the rest
RECURSIVE Ipow(_, _)
Ipow(b, n) == IF n = 0 THEN 1 ELSE b * Ipow(b, n - 1)
Decode(p, d, inc) ==
    LET z == [a \in 1..d |-> (((p - 1) \div Ipow(inc, d - a)) % inc) + 1]   \* axes of the array
    IN  [k \in 1..d |-> IF d = 1 THEN z[1] ELSE IF k = 1 THEN z[2] ELSE IF k = 2 THEN z[1] ELSE z[k]]
Counts(data, X, y) ==
    LET d == Len(X)  inc == Len(X[1])
    IN  TLCEval([p \in 1..Ipow(inc, d) |-> CellCount(data, X, y, Decode(p, d, inc))])
=============================================================================
