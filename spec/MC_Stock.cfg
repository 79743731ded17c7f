SPECIFICATION Spec
CONSTANT AvailSet <- AvailDef
CONSTANT SizesSet <- SizesDef
CONSTANT Iters <- ItersDef
CONSTANT High <- HighDef
CONSTANT Low <- LowDef
CONSTANT Outs <- OutsDef
INVARIANT AllOrNone MeansAgree MeanWithin OptimumOfSize Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
