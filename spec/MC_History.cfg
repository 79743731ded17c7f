SPECIFICATION Spec
CONSTANT Start <- StartDef
CONSTANT Mechs <- MechsDef
CONSTANT Args <- ArgsDef
CONSTANT Depth <- DepthDef
CONSTANT Extra <- ExtraDef
INVARIANT OneAnswer Emit
PROPERTY OnlyAppendChanges Copies
CHECK_DEADLOCK FALSE
