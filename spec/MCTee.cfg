SPECIFICATION MCTSpec
INVARIANTS TPrefix TNoSilentLoss TFullIsError TNoFalseAlarm
PROPERTY TFinishes
CHECK_DEADLOCK FALSE
