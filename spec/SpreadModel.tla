----------------------------- MODULE SpreadModel ----------------------------
(* Histories of assignments to the method and type of a spreading object:    *)
(* every alias selects its method, an unknown one is refused and leaves the  *)
(* object as it was.                                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES method, type, hist
vars == <<method, type, hist>>
Canon == [frequency_independent |-> {"None", "0", "n", "none"}, mitsuyasu |-> {"1", "m", "Mitsuyasu", "MIT"},
          donelan |-> {"2", "d", "donelan"}, banner |-> {"3", "b", "Banner"}]
Unknown == {"x", "4", "-1"}
Types == {"cos2s", "box", "mises", "von-mises", "poisson", "sech2", "wrap_norm"}
Init == method = "mitsuyasu" /\ type \in Types /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
SetMethod == \E m \in DOMAIN Canon : \E a \in Canon[m] : method' = m /\ Log([do |-> "method", arg |-> a, ok |-> TRUE, method |-> m, type |-> type]) /\ UNCHANGED type
SetBad == \E a \in Unknown : Log([do |-> "method", arg |-> a, ok |-> FALSE, method |-> method, type |-> type]) /\ UNCHANGED <<method, type>>
SetType == \E t \in Types : t # type /\ type' = t /\ Log([do |-> "type", arg |-> t, ok |-> TRUE, method |-> method, type |-> t]) /\ UNCHANGED method
Next == Len(hist) < Steps /\ (SetMethod \/ SetBad \/ SetType) /\ (Len(hist') = Steps => PrintT(ToJson(hist')))
Spec == Init /\ [][Next]_vars
TypeOK == method \in DOMAIN Canon /\ type \in Types
=============================================================================
