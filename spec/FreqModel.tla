------------------------------ MODULE FreqModel -----------------------------
(* Histories of two spectrum objects over the same arrays: change of the     *)
(* frequency type, normalization and copying.  What an object stands for is  *)
(* its frequency type and whether it is normalized, and changing one object  *)
(* never changes the other.                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES a, b, hist, f0
vars == <<a, b, hist, f0>>
Obj == [ft : {"w", "f"}, norm : BOOLEAN]
Init == a \in [ft : {"w", "f"}, norm : {FALSE}] /\ b = a /\ hist = <<>> /\ f0 = a.ft
Log(x) == hist' = Append(hist, [do |-> x, a |-> a', b |-> b'])
Convert(o, t) == [o EXCEPT !.ft = t]
Next == /\ Len(hist) < Steps
        /\ \/ \E t \in {"w", "f"} : a' = Convert(a, t) /\ b' = b /\ Log(<<"a", t>>)
           \/ \E t \in {"w", "f"} : b' = Convert(b, t) /\ a' = a /\ Log(<<"b", t>>)
           \/ a' = [a EXCEPT !.norm = TRUE] /\ b' = b /\ Log(<<"a", "normalize">>)
           \/ b' = [b EXCEPT !.norm = TRUE] /\ a' = a /\ Log(<<"b", "normalize">>)
           \/ b' = [a EXCEPT !.norm = TRUE] /\ a' = a /\ Log(<<"b", "specnorm">>)
           \/ b' = a /\ a' = a /\ Log(<<"b", "copy">>)
        /\ f0' = f0
        /\ (Len(hist') = Steps => PrintT(ToJson([ft0 |-> f0, hist |-> hist'])))
Spec == Init /\ [][Next]_vars
TypeOK == a \in Obj /\ b \in Obj
=============================================================================
