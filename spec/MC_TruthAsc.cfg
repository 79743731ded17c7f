SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT Truthful Emit
CHECK_DEADLOCK FALSE
