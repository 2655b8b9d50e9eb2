SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS PosIsSet ClassIsUnion AnyTakesAll NoneIs00 ExactIsOne RangeIsUnion Split2
PROPERTIES NarrowLoses
