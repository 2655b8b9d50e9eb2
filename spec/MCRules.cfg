SPECIFICATION Spec
CONSTANTS
  MaxRecs = 2
  Ids = {1, 2}
  LastYear = 2030
INVARIANTS OrderFree Calendar
CHECK_DEADLOCK FALSE
