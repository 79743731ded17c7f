SPECIFICATION Spec
CONSTANTS Recipes_ <- RecipesDef
 Starts <- StartsDef
 Targets <- TargetsDef
 Bounds <- BoundsDef
 Depth_ <- DepthDef
 Unit <- UnitDef
INVARIANT Emit
PROPERTY NotBeyond
CHECK_DEADLOCK FALSE
