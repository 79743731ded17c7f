SPECIFICATION FairSpec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = FALSE
PROPERTY AscTerminates
CHECK_DEADLOCK FALSE
