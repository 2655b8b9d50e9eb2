SPECIFICATION Spec
CONSTANTS MaxLines = 4
          MaxLines2 = 2
          Cmds = {"concat"}
INVARIANTS ConcatAll ConcatUnique ConcatCovers
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
