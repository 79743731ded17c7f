SPECIFICATION Spec
CONSTANTS MaxNodes <- MaxNodesDef
 MaxW <- MaxWDef
 Big <- BigDef
INVARIANT EqualSums BelowBound Emit
CHECK_DEADLOCK FALSE
