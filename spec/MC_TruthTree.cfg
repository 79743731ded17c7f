SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT OutStaysOut InSameTerms Emit
CHECK_DEADLOCK FALSE
