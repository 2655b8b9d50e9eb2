SPECIFICATION SinkSpec
CHECK_DEADLOCK FALSE
