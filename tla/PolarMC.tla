-------------------------------- MODULE PolarMC ---------------------------------
(* The angular order on every triple of points of a small grid.                     *)
EXTENDS Polar, TLC
CONSTANTS G            \* coordinates -G .. G
VARIABLES a, b, c, k
Grid == {<<x, y>> : x \in (0 - G)..G, y \in (0 - G)..G}
Init == a \in Grid /\ b = <<0, 0>> /\ c = <<0, 0>> /\ k = 0
Next == \/ k = 0 /\ \E p \in Grid : b' = p /\ k' = 1 /\ UNCHANGED <<a, c>>
        \/ k = 1 /\ \E p \in Grid : c' = p /\ k' = 2 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c, k>>
Irreflexive == ~PolarLess(a, a)
Asymmetric == k >= 1 => ~(PolarLess(a, b) /\ PolarLess(b, a))
Transitive == (k = 2 /\ PolarLess(a, b) /\ PolarLess(b, c)) => PolarLess(a, c)
TieTransitive == (k = 2 /\ PolarTie(a, b) /\ PolarTie(b, c)) => PolarTie(a, c)
AgreesWithAngle == k >= 1 => PolarLess(a, b) = FLt(FAdd(Angle(a), "1e-9"), Angle(b))
================================================================================
