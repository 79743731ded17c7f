SPECIFICATION Spec
CONSTANT Spaces <- SpacesDef
CONSTANT EmitCases = TRUE
INVARIANT ExpectationIsAverage LargestNumber SurplusIsPayments Emit
CHECK_DEADLOCK FALSE
