SPECIFICATION Spec
CONSTANTS MaxSteps = 10
 Forgets = TRUE
INVARIANTS UpToDate Equality ReadsBack Formed
CHECK_DEADLOCK FALSE
