SPECIFICATION ConfigSpec
INVARIANTS TypeOk
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
