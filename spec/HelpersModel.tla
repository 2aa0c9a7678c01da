---------------------------- MODULE HelpersModel ----------------------------
(* A register of Width bits under arbitrary sequences of bit writes: reads   *)
(* return what was last written and no write disturbs another bit; every     *)
(* linear index of a small array has one subscript tuple and vice versa.     *)
EXTENDS Helpers, Json
CONSTANTS Width, MaxOps
VARIABLES reg, shadow, ops
vars == <<reg, shadow, ops>>
Init == \E i \in 0..(Pow2(Width) - 1) : reg = i /\ shadow = Bits(i, Width) /\ ops = <<>>
Write(b, v) == /\ Len(ops) < MaxOps
               /\ reg' = SetBit(reg, b, v)
               /\ shadow' = [shadow EXCEPT ![b + 1] = v]
               /\ ops' = Append(ops, <<b, v>>)
               /\ PrintT(ToJson([start |-> reg, b |-> b, v |-> v, reg |-> reg', bits |-> shadow']))
Next == \E b \in 0..(Width - 1), v \in 0..1 : Write(b, v)
Spec == Init /\ [][Next]_vars
ReadsBack == Bits(reg, Width) = shadow
Packs == FromBits(shadow, 1) = reg
Shapes == {<<2>>, <<2, 3>>, <<3, 2, 2>>, <<1, 4>>}
Subs(sh) == {s \in [1..Len(sh) -> 0..3] : InShape(sh, s)}
Bijective == \A sh \in Shapes : \A o \in {"C", "F"} :
    {Lin(sh, s, o) : s \in Subs(sh)} = 0..(Prod(sh, 1) - 1)
=============================================================================
