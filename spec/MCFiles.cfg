SPECIFICATION Spec
CONSTANTS MaxLines = 4
          MaxLines2 = 1
          Cmds = {"split", "partition"}
INVARIANTS LimitHolds ErrOk ErrPos SplitCover PartitionCover PartitionAll
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
