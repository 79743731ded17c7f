SPECIFICATION Spec
CONSTANT Start <- StartDef
CONSTANT Recs <- RecsDef
CONSTANT Adds <- AddsDef
CONSTANT Shapes <- ShapesDef
CONSTANT Lens <- LensDef
CONSTANT Depth <- DepthDef
INVARIANT Forgotten SameShape Emit
PROPERTY RefusalChangesNothing
CHECK_DEADLOCK FALSE
