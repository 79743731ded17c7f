SPECIFICATION FairSpec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = FALSE
PROPERTY TrTerminates
CHECK_DEADLOCK FALSE
