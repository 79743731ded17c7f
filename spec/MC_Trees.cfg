SPECIFICATION Spec
CONSTANTS MaxNodes <- MaxNodesDef
 Vals <- ValsDef
 MaxW <- MaxWDef
 MaxN <- MaxNDef
 EmitCases = TRUE
INVARIANT OptimumIsOptimal DealsAreMaximal MarginalsFall CutIsCut FewestDeals ExplainEnds SomeRecipes Emit
CHECK_DEADLOCK FALSE
