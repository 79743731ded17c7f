SPECIFICATION FairSpec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = FALSE
PROPERTY TreeEnds
CHECK_DEADLOCK FALSE
