SPECIFICATION Spec
CONSTANTS MaxLines = 4
          MaxLines2 = 1
          Cmds = {"slice"}
INVARIANTS LimitHolds ErrPos SliceOut
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
