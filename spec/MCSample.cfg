SPECIFICATION Spec
CONSTANTS K = 2
          N = 5
          Skew = 0
INVARIANTS Size Distinct FromInput Slotwise Uniform
CHECK_DEADLOCK FALSE
