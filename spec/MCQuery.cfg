SPECIFICATION Spec
CONSTANTS MaxSubs = 2
CHECK_DEADLOCK FALSE
INVARIANTS Rectangular NeverNone MergeIsOne ProductLaw Column SquashRows SquashKeeps
