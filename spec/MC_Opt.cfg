SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT OptPartition OptHighest OptDecreasing OptWorth OptIsOptimal OptCount OptLimited OptBestOfLimit Emit
CHECK_DEADLOCK FALSE
