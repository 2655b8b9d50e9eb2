SPECIFICATION Spec
CONSTANTS MaxFilter = 3
          MaxSub = 3
          MaxPath = 4
          MaxFormat = 4
CHECK_DEADLOCK FALSE
INVARIANTS Around Brackets Negation Joined Closed AsQuery InBraces AsValues
