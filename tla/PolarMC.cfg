CONSTANT G = 3
SPECIFICATION Spec
INVARIANTS Irreflexive Asymmetric Transitive TieTransitive AgreesWithAngle
CHECK_DEADLOCK FALSE
