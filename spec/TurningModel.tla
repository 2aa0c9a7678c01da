---------------------------- MODULE TurningModel ----------------------------
(***************************************************************************)
(* Explores every integer signal up to MaxLen over 0..MaxVal, growing it   *)
(* one sample at a time, and checks the properties that make the           *)
(* definitions of Turning.tla the right ones.  Complete behaviours are     *)
(* printed for replay into the real code.                                  *)
(***************************************************************************)
EXTENDS Turning, TLC, Json
CONSTANTS MaxLen, MaxVal, Heights
VARIABLES x, done
vars == <<x, done>>
Init == x = <<>> /\ done = FALSE
Grow == ~done /\ Len(x) < MaxLen /\ (\E v \in 0..MaxVal : x' = Append(x, v)) /\ UNCHANGED done
Tp(h, k) == IF HasTp(x) THEN FindTp(x, h, k) ELSE <<>>
Stop == /\ ~done /\ Len(x) >= 2 /\ done' = TRUE /\ UNCHANGED x
        /\ PrintT(ToJson([x |-> x, ext |-> Extrema(x), has |-> HasTp(x),
                          tp |-> [h \in Heights |-> Tp(h, "none")],
                          astm |-> Tp(0, "astm"),
                          mw |-> [h \in Heights |-> Tp(h, "mw")],
                          Mw |-> [h \in Heights |-> Tp(h, "Mw")],
                          f0 |-> [h \in Heights |-> RfcFilterIdx(x, h, FALSE)],
                          f1 |-> [h \in Heights |-> RfcFilterIdx(x, h, TRUE)]]))
Next == Grow \/ Stop
Spec == Init /\ [][Next]_vars

e == Extrema(x)
\* extrema alternate strictly between maxima and minima
ExtremaAlternate == Alternating(Pick(x, e)) /\ \A k \in 1..(Len(e) - 1) : e[k] < e[k + 1]
\* between consecutive extrema the signal is monotone, and it is monotone before the first
\* and after the last: nothing was missed
Mono(a, b) == \/ \A i \in a..(b - 1) : At(x, i) <= At(x, i + 1)
              \/ \A i \in a..(b - 1) : At(x, i) >= At(x, i + 1)
NothingMissed == Len(x) > 1 =>
    LET f == <<0>> \o e \o <<Len(x) - 1>> IN \A k \in 1..(Len(f) - 1) : Mono(f[k], f[k + 1])
\* the turning points attain the overall range of the signal
RangeKept == HasTp(x) =>
    LET p == Pick(x, TpAll(x, "astm"))
    IN  SetMax(ToSet(p)) = SetMax(ToSet(x)) /\ SetMin(ToSet(p)) = SetMin(ToSet(x))
\* total variation is carried by the turning points
VariationKept == HasTp(x) => TotVar(Pick(x, TpAll(x, "astm")), 1) = TotVar(x, 1)

y == IF HasTp(x) THEN Pick(x, TpAll(x, "none")) ELSE <<>>
InDomain == HasTp(x) /\ Alternating(y)
\* rainflow cycles: a maximum gets a minimum that precedes or follows it and is below it
PartnerBelow == InDomain => \A k \in 0..(NC(y) - 1) :
                    At(y, 2*k + 1) > At(y, Partner(y, k)) /\ Partner(y, k) % 2 = 0
\* no minimum is used for two maxima
PartnerInjective == InDomain => \A j, k \in 0..(NC(y) - 1) : j # k => Partner(y, j) # Partner(y, k)
\* filtering keeps an alternating sequence (min, max, min, ...)
FilteredAlternates == InDomain => \A h \in Heights : h > 0 =>
    LET r == FindRfc(y, h) IN Alternating(Pick(y, r)) /\ Cardinality(ToSet(r)) = Len(r)
\* ... whose swings are all at least h, and a second pass changes nothing
FilteredLarge == InDomain => \A h \in Heights : h > 0 =>
    LET q == Pick(y, FindRfc(y, h))
    IN  \A i \in 1..(Len(q) - 1) : Abs(q[i + 1] - q[i]) >= h
Idempotent == InDomain => \A h \in Heights : h > 0 =>
    LET q == Pick(y, FindRfc(y, h)) IN Len(q) >= 2 => Pick(q, FindRfc(q, h)) = q
\* the largest swing survives whenever it reaches h
Survives == InDomain => \A h \in Heights : h > 0 =>
    ((\E k \in 0..(NC(y) - 1) : RfcHeight(y, k) >= h) <=> FindRfc(y, h) # <<>>)
\* raising the threshold only removes turning points
Monotone == InDomain => \A h, g \in Heights : 0 < h /\ h <= g =>
    ToSet(FindRfc(y, g)) \subseteq ToSet(FindRfc(y, h))

\* hysteresis filters: subsequence with first sample, alternating, swings >= h (or > h) except
\* possibly the last, which follows the end rule
FilterOk(strict) == Len(x) >= 1 => \A h \in Heights : h > 0 =>
    LET f == RfcFilterIdx(x, h, strict)
        q == Pick(x, f)
    IN  /\ \A i \in 1..(Len(f) - 1) : f[i] < f[i + 1]
        /\ f[1] = 0
        /\ \A i \in 2..(Len(q) - 1) : Lst(h, Abs(q[i + 1] - q[i]), strict) \/ Leq(h, Abs(q[i + 1] - q[i]), strict)
        /\ \A i \in 2..(Len(q) - 2) : (q[i + 1] - q[i]) * (q[i + 2] - q[i + 1]) < 0
Filters == FilterOk(TRUE) /\ FilterOk(FALSE)
=============================================================================
