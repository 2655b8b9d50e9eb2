SPECIFICATION Spec
CONSTANTS
  MaxRecs = 3
  Ids = {1, 2}
  LastYear = 2410
INVARIANTS OrderFree Calendar
CHECK_DEADLOCK FALSE
