SPECIFICATION FairSpec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = FALSE
PROPERTY McTerminates
CHECK_DEADLOCK FALSE
