SPECIFICATION Spec
CONSTANT CatSet <- CatDef
CONSTANT RecSet <- RecDef
CONSTANT ValueSet <- ValueDef
INVARIANT BestOfAll Balanced Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
