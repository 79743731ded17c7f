SPECIFICATION Spec
CONSTANT Files <- FilesDef
CONSTANT CountsSet <- CountsDef
CONSTANT MultsSet <- MultsDef
INVARIANT Enough OnceEach DoneIsOK FewLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
