------------------------------ MODULE RindModel -----------------------------
(* Integrators that share one engine. Each was made with its own method;     *)
(* a call may change it for good. The engine holds the method of whoever set *)
(* it last, and must hold the caller's when it integrates.                   *)
(* Angle: the two definitions of the bivariate law agree.                    *)
EXTENDS Gauss, Json
CONSTANTS Objects, Methods, Depth
VARIABLES own, engine, used, hist,
          left, got  \* the engine if calls do not set it up again, and what it then integrates with
vars == <<own, engine, used, hist, left, got>>
Init == own = [o \in Objects |-> 0] /\ engine = 0 /\ used = <<>> /\ hist = <<>> /\ left = 0 /\ got = <<>>
Make(o, m) == own' = [own EXCEPT ![o] = m] /\ engine' = m /\ hist' = Append(hist, [what |-> "make", o |-> o, m |-> m]) /\ left' = m /\ UNCHANGED <<used, got>>
\* m = 0: as it is
Call(o, m) == /\ own[o] # 0
              /\ LET now == IF m = 0 THEN own[o] ELSE m IN
                 /\ own' = [own EXCEPT ![o] = now] /\ engine' = now /\ used' = Append(used, now)
                 /\ left' = (IF m = 0 THEN left ELSE m) /\ got' = Append(got, left')
                 /\ hist' = Append(hist, [what |-> "call", o |-> o, m |-> m])
Next == Len(hist) < Depth /\ ((\E o \in Objects, m \in Methods : Make(o, m) \/ Call(o, m)) \/ (\E o \in Objects : Call(o, 0)))
        /\ (Len(hist') = Depth /\ used' # <<>> => PrintT(ToJson([hist |-> hist', used |-> used', got |-> got'])))
Spec == Init /\ [][Next]_vars
\* the engine last integrated with, or was last set up for, some object's method
Current == engine # 0 => \E o \in Objects : own[o] = engine
Calls == Len(used) = Cardinality({k \in 1..Len(hist) : hist[k].what = "call"})
ASSUME \A h \in {"-1.3", "0.4", "2"}, k \in {"-0.7", "1.1"}, r \in {"-0.7", "0.3", "0.75"} : HClose(Phi2Angle(h, k, r, 10), Phi2Owen(h, k, r, 8), "1e-13", "0")
=============================================================================
