SPECIFICATION Spec
CONSTANTS MaxLines = 3
          MaxLines2 = 1
          Cmds = {"filter", "invalid", "concat", "count", "sample", "slice", "split", "partition"}
INVARIANTS OutPrefix FilterOut LimitHolds ErrOk ErrPos InvalidOut ConcatAll ConcatUnique ConcatCovers
           CountOk SampleHeld SliceOut SplitCover PartitionCover PartitionAll
CHECK_DEADLOCK FALSE
