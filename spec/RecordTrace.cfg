SPECIFICATION RecordSpec
CHECK_DEADLOCK FALSE
