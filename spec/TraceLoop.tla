----------------------------- MODULE TraceLoop ------------------------------
(***************************************************************************)
(* Generic trace checker.  A trace is a newline separated JSON file (path  *)
(* in the environment variable VP_TRACE) with one event per call that was  *)
(* made into the real library: what was called, with which arguments, and  *)
(* what came back (a value or an error).                                   *)
(*                                                                         *)
(*   Verdict(st, e)  the set of names of the clauses of the specification  *)
(*                   that the event breaks in abstract state st ({} = ok)  *)
(*   After(st, e)    the abstract state after the event                    *)
(*   Start           the initial abstract state                            *)
(*                                                                         *)
(* One step per event; the verdict is total, a rejected event is recorded  *)
(* with the names of its failing clauses and checking goes on.  When the   *)
(* whole trace is consumed the rejected events are written to VP_OUT.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Verdict(_, _), After(_, _), Start
VARIABLES l, st, bad

vars == <<l, st, bad>>

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

Init == l = 1 /\ st = Start /\ bad = <<>>

Consume ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           f == Verdict(st, e)
       IN  /\ bad' = IF f = {} \/ Len(bad) >= 200 THEN bad
                     ELSE Append(bad, [i |-> l, why |-> f])
           /\ st' = After(st, e)

Finish ==
    /\ l = Len(Trace) + 1
    /\ l' = l + 1
    /\ JsonSerialize(IOEnv.VP_OUT, [consumed |-> Len(Trace), bad |-> bad])
    /\ UNCHANGED <<st, bad>>

Next == Consume \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
