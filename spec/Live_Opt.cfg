SPECIFICATION FairSpec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = FALSE
PROPERTY OptEnds
CHECK_DEADLOCK FALSE
