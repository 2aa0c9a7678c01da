---------------------------- MODULE SensorModel -----------------------------
(* The sensors as states of a transition system: differentiating a sensor in *)
(* time, x or y gives another sensor and multiplies the transfer function by *)
(* -i w, i kx, i ky.  A walk from the surface elevation or a displacement is *)
(* replayed on the real transfer functions.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES from, cur, path
vars == <<from, cur, path>>
Names == <<"n", "n_t", "n_tt", "n_x", "n_y", "n_xx", "n_yy", "n_xy", "p", "u", "v", "w", "u_t", "v_t", "w_t", "x_p", "y_p", "z_p">>
Edges == {<<"n", "t", "n_t">>, <<"n_t", "t", "n_tt">>, <<"n", "x", "n_x">>, <<"n", "y", "n_y">>, <<"n_x", "x", "n_xx">>,
          <<"n_y", "y", "n_yy">>, <<"n_x", "y", "n_xy">>, <<"n_y", "x", "n_xy">>,
          <<"x_p", "t", "u">>, <<"u", "t", "u_t">>, <<"y_p", "t", "v">>, <<"v", "t", "v_t">>, <<"z_p", "t", "w">>, <<"w", "t", "w_t">>}
Id(s) == CHOOSE i \in 1..Len(Names) : Names[i] = s
Init == from \in {"n", "x_p", "y_p", "z_p"} /\ cur = from /\ path = <<>>
Next == /\ Len(path) < Depth
        /\ \E e \in Edges : e[1] = cur /\ cur' = e[3] /\ path' = Append(path, e[2])
        /\ UNCHANGED from
        /\ PrintT(ToJson([from |-> from, to |-> cur', path |-> path', fid |-> Id(from) - 1, tid |-> Id(cur') - 1]))
Spec == Init /\ [][Next]_vars
Count(c) == Cardinality({i \in 1..Len(path) : path[i] = c})
\* the sensor reached depends only on how often each derivative was taken
Commute == \A e \in Edges : e[1] = cur => \A f \in Edges : f[1] = e[3] =>
             \A g \in Edges : (g[1] = cur /\ g[2] = f[2]) => \E k \in Edges : k[1] = g[3] /\ k[2] = e[2] /\ k[3] = f[3]
AtMostTwo == Len(path) <= 2
=============================================================================
