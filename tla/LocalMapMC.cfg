CONSTANT Few <- One
SPECIFICATION Spec
INVARIANTS LineDerivative PlaneDerivative AlignDerivative LineIsDistance PlaneIsDistance FitExact TangentExact StepIsMinimum MatrixRoundTrip
CHECK_DEADLOCK FALSE
