SPECIFICATION LostSpec
CONSTANTS MaxLines = 2
          MaxLines2 = 1
          Cmds = {"filter", "invalid", "concat", "count", "slice", "split"}
INVARIANTS NoSilentLoss LostOnly FilterLost InvalidLost CountLost
PROPERTY Terminates
CHECK_DEADLOCK FALSE
