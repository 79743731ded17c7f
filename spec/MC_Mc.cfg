SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT McNoDeficit2 McIR McOneDeal McGFT McFeasible McGreedyOptimal McConserve Emit
CHECK_DEADLOCK FALSE
