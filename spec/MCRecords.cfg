SPECIFICATION Spec
CONSTANTS MaxSteps = 7
 Forgets = TRUE
INVARIANTS UpToDate Equality ReadsBack Formed
CHECK_DEADLOCK FALSE
