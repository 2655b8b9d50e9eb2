SPECIFICATION Spec
CONSTANTS MaxSteps = 6
CHECK_DEADLOCK FALSE
INVARIANTS Meaning FailsOnBad Builder
