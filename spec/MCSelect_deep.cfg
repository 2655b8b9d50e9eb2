SPECIFICATION SelSpec
CONSTANTS MaxLines = 3
          MaxLines2 = 0
          Cmds = {}
INVARIANTS SelCount SelPrefix Exact
CHECK_DEADLOCK FALSE
