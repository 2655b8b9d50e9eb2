SPECIFICATION UsageSpec
INVARIANTS InputsKept RefusalIsSilent OnlyNamed NamesWritten Stays
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
