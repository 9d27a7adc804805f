CONSTANT Steps = 2
SPECIFICATION Spec
INVARIANTS HatIsCross LeftRight Associative RotationKeepsLength RotationsCompose MatrixActs RpyIsProduct ExpIsRodrigues ExpNearZero Derivative Inverse MatrixToQuaternion
CHECK_DEADLOCK FALSE
