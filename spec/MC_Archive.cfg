SPECIFICATION Spec
CONSTANT RecipeLists <- RecipeListsDef
CONSTANT MaxSize <- MaxSizeDef
INVARIANT Bounded Formula Greedy Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
