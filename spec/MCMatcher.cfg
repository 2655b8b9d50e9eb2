SPECIFICATION Spec
CONSTANTS MaxSubs = 2 MaxSubs2 = 1
CHECK_DEADLOCK FALSE
INVARIANTS SubDual FieldDual EqImplies InIsOr FoldGrows ExIsCard FexIsCard Trichotomy OccWider Frame
