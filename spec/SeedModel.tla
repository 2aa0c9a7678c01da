------------------------------ MODULE SeedModel -----------------------------
(* Reproducibility of simulations.  The random stream is abstract: the seed  *)
(* it was last set to and the simulations drawn from it since.  A simulation *)
(* with a seed (a number, or the state that belongs to it) restarts the      *)
(* stream.  Two results of the same kind agree exactly when they were drawn  *)
(* from the same point of the same stream.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Kinds, Seeds     \* seeds: "none", "0", "1", "state1"
VARIABLES stream, hist
vars == <<stream, hist>>
Init == stream = <<"start">> /\ hist = <<>>
From(s) == IF s = "none" THEN stream ELSE IF s = "state1" THEN <<"1">> ELSE <<s>>
Sim(k, s) == /\ stream' = Append(From(s), k)
             /\ hist' = Append(hist, [kind |-> k, seed |-> s, point |-> From(s)])
Next == /\ Len(hist) < Steps
        /\ \E k \in Kinds, s \in Seeds : Sim(k, s)
        /\ (Len(hist') = Steps => PrintT(ToJson(hist')))
Spec == Init /\ [][Next]_vars
\* seeding makes a result independent of everything before
Independent == \A i \in 1..Len(hist) : hist[i].seed # "none" => Len(hist[i].point) = 1
=============================================================================
