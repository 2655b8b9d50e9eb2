SPECIFICATION Spec
CONSTANTS MaxFields = 9
INVARIANTS LocalIs CopyIs MainIs Covers
CHECK_DEADLOCK FALSE
