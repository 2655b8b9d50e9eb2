SPECIFICATION Spec
CONSTANTS MaxSubs = 2 MaxSubs2 = 2
CHECK_DEADLOCK FALSE
INVARIANTS SubDual FieldDual EqImplies InIsOr FoldGrows ExIsCard FexIsCard Trichotomy OccWider Frame
