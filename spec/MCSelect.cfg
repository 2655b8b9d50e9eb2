SPECIFICATION SelSpec
CONSTANTS MaxLines = 2
          MaxLines2 = 0
          Cmds = {}
INVARIANTS SelCount SelPrefix Exact
CHECK_DEADLOCK FALSE
