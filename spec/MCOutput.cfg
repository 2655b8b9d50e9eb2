SPECIFICATION MCSpec
INVARIANTS Prefix Ends NoSilentLoss NoFalseAlarm
PROPERTY Finishes
CHECK_DEADLOCK FALSE
