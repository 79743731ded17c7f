SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT AscSBB AscIR AscOneDeal AscGFT AscFeasible AscBelowZero AscInAccept AscTop Emit
CHECK_DEADLOCK FALSE
PROPERTY AscMonotone
