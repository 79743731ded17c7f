SPECIFICATION Spec
CONSTANT Vals <- ValsDef
CONSTANT Depth <- DepthDef
CONSTANT Lists <- ListsDef
CONSTANT Focus <- FocusDef
INVARIANT Sorted IsBag NoOthers Emit
PROPERTY Independent
CHECK_DEADLOCK FALSE
