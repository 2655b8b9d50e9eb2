SPECIFICATION Spec
CONSTANTS MaxFields = 12
INVARIANTS LocalIs CopyIs MainIs Covers
CHECK_DEADLOCK FALSE
