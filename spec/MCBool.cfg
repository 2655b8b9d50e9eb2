SPECIFICATION Spec
CONSTANTS NAtoms = 3
CHECK_DEADLOCK FALSE
INVARIANTS Minimal Full Pruned
