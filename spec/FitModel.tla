------------------------------ MODULE FitModel ------------------------------
(* Two machines. A request for an estimate of a law with one shape, built    *)
(* word by word: which parameters it holds, where the others start, and when *)
(* it is refused. And a sample built value by value, with the estimates that *)
(* have a closed form.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Top, N
VARIABLES names, nargs, x, phase
vars == <<names, nargs, x, phase>>
Words == {"f0", "fc", "fix_c", "floc", "fscale", "loc", "scale"}
Of(w) == IF w \in {"f0", "fc", "fix_c"} THEN 1 ELSE IF w \in {"floc", "loc"} THEN 2 ELSE 3
Holding == Words \ {"loc", "scale"}
\* values: a held parameter gets 10 i + the word's own digit, a start 100 i (positional) or 200 i (keyword)
Digit(w) == CASE w = "f0" -> 1 [] w = "fc" -> 2 [] w = "fix_c" -> 3 [] OTHER -> 4
Init == names = {} /\ nargs = 0 /\ x = <<>> /\ phase = "build"
Word(w) == /\ phase = "build" /\ x = <<>> /\ w \notin names
           \* a start given twice, in two ways, is outside
           /\ (w = "loc" => nargs < 2) /\ (w = "scale" => nargs < 3)
           /\ names' = names \cup {w} /\ UNCHANGED <<nargs, x, phase>>
Arg == phase = "build" /\ x = <<>> /\ names = {} /\ nargs < 4 /\ nargs' = nargs + 1 /\ UNCHANGED <<names, x, phase>>
Held(i) == {w \in names \cap Holding : Of(w) = i}
Refusal == IF nargs > 3 THEN "TypeError"
           ELSE IF \E i \in 1..3 : Cardinality(Held(i)) > 1 THEN "ValueError"
           ELSE IF \A i \in 1..3 : Held(i) # {} THEN "ValueError" ELSE "none"
\* 0: left to the library
Par(i) == IF Held(i) # {} THEN 10 * i + Digit(CHOOSE w \in Held(i) : TRUE)
          ELSE IF nargs >= i THEN 100 * i ELSE IF i = 2 /\ "loc" \in names THEN 400 ELSE IF i = 3 /\ "scale" \in names THEN 600 ELSE 0
Ask == /\ phase = "build" /\ x = <<>> /\ phase' = "asked" /\ UNCHANGED <<names, nargs, x>>
       /\ PrintT(ToJson([kind |-> "request", names |-> names, nargs |-> nargs, refusal |-> Refusal, par |-> [i \in 1..3 |-> Par(i)], held |-> [i \in 1..3 |-> Held(i) # {}]]))
Grow(v) == phase = "build" /\ names = {} /\ nargs = 0 /\ Len(x) < N /\ (Len(x) > 0 => x[Len(x)] <= v) /\ x' = Append(x, v) /\ UNCHANGED <<names, nargs, phase>>
RECURSIVE S1(_), S2(_)
S1(k) == IF k = 0 THEN 0 ELSE x[k] + S1(k - 1)
S2(k) == IF k = 0 THEN 0 ELSE x[k] * x[k] + S2(k - 1)
Known == {[law |-> "expon", held |-> "loc", n |-> S1(N), d |-> N], [law |-> "rayleigh", held |-> "loc", n |-> S2(N), d |-> 2 * N],
          [law |-> "norm", held |-> "loc", n |-> S2(N), d |-> N], [law |-> "norm", held |-> "scale", n |-> S1(N), d |-> N]}
Estimate == /\ phase = "build" /\ Len(x) = N /\ phase' = "asked" /\ UNCHANGED <<names, nargs, x>>
            /\ \A e \in Known : PrintT(ToJson([kind |-> "closed", x |-> x, law |-> e.law, held |-> e.held, n |-> e.n, d |-> e.d]))
Next == (\E w \in Words : Word(w)) \/ Arg \/ Ask \/ (\E v \in 1..Top : Grow(v)) \/ Estimate
Spec == Init /\ [][Next]_vars
RECURSIVE Dev(_, _)
Dev(k, m) == IF k = 0 THEN 0 ELSE (N * x[k] - m) * (N * x[k] - m) + Dev(k - 1, m)
\* the mean is the best centre, and the estimates agree on a sample of one value
Best == Len(x) = N => \A m \in 0..N * Top : Dev(N, S1(N)) <= Dev(N, m)
Unique == Len(x) = N => (S1(N) * S1(N) <= N * S2(N) /\ (S1(N) * S1(N) = N * S2(N) <=> x[1] = x[N]))
\* what is asked for is obeyed
Obeyed == Refusal = "none" => /\ \E i \in 1..3 : Held(i) = {}
                              /\ \A i \in 1..3 : Held(i) # {} => Par(i) \in 10 * i + 1..10 * i + 4
=============================================================================
