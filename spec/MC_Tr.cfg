SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT TrSBB TrIR TrOneDeal TrGFT TrFeasible TrGreedyOptimal TrConserve Emit
CHECK_DEADLOCK FALSE
