SPECIFICATION Spec
CONSTANTS MaxFilter = 4
          MaxSub = 4
          MaxPath = 5
          MaxFormat = 5
CHECK_DEADLOCK FALSE
INVARIANTS Around Brackets Negation Joined Closed AsQuery InBraces AsValues
