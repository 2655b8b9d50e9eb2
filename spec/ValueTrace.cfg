SPECIFICATION ValueSpec
CHECK_DEADLOCK FALSE
