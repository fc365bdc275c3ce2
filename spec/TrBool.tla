------------------------------- MODULE TrBool -------------------------------
(* Recorded boolean operations (C01, C02, C03) against the relation of Bool.*)
EXTENDS TraceBase, Bool

CONSTANT Prop
Verdict(r) == CASE Prop = "C01" -> V_C01(r)
                [] Prop = "C02" -> V_C02(r)
                [] Prop = "C03" -> V_C03(r)
Next == TraceNext(Verdict)
Spec == TraceInit /\ [][Next]_<<l, bad>>
=============================================================================
