SPECIFICATION Spec
CONSTANTS Tree_ <- TreeDef
 Start <- StartDef
 Targets <- TargetsDef
 Bounds <- BoundsDef
 Depth_ <- DepthDef
INVARIANT SumsEqual AllCuts Emit
PROPERTY JointStep
CHECK_DEADLOCK FALSE
