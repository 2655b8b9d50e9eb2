SPECIFICATION Spec
CONSTANTS MaxSubs = 3
CHECK_DEADLOCK FALSE
INVARIANTS Idempotent OrderFree Bounds Zero ConsAssoc ThenIsPrefix NoValueNoText
