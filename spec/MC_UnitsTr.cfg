SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT Factors <- FactorsDef
CONSTANT EmitCases = TRUE
INVARIANT InStep Together Emit
CHECK_DEADLOCK FALSE
