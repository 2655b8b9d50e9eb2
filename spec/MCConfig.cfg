SPECIFICATION ConfigSpec
INVARIANTS TypeOk GetTrue SetHolds UnsetHolds
PROPERTIES OnlyNamed OnlyWrites NeverRemoved LastWrite
CHECK_DEADLOCK FALSE
