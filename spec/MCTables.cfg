SPECIFICATION Spec
CONSTANTS MaxRows = 5
INVARIANTS Counts Complete Sorted Prefix Bag
CHECK_DEADLOCK FALSE
