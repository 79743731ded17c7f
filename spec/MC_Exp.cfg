SPECIFICATION Spec
CONSTANT SizesSet <- SizesDef
CONSTANT Iters <- ItersDef
CONSTANT High <- HighDef
CONSTANT Low <- LowDef
CONSTANT Outs <- OutsDef
INVARIANT OneRowPerSize WinsSum RowsOwnMarkets Optimum Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
