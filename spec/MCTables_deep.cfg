SPECIFICATION Spec
CONSTANTS MaxRows = 7
INVARIANTS Counts Complete Sorted Prefix Bag
CHECK_DEADLOCK FALSE
