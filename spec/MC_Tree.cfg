SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT EqualSums SumAtMostZero TreeSBB TreeIR TreeTop TreeLeft TreeBelowOpt TreeAllTrade TreeCut TreeProgress TreeFewer Emit
CHECK_DEADLOCK FALSE
PROPERTY TreeMonotone
