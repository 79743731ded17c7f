SPECIFICATION Spec
CONSTANT DrawSet <- DrawDef
CONSTANT Signs <- SignsDef
CONSTANT MaxN <- MaxNDef
INVARIANT OnePerDraw Descending SignKept InReach Explained Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
