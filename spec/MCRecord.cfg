SPECIFICATION Spec
CONSTANTS Depth = 2
          Alphabet = {10, 30, 31, 32, 47, 48, 57, 58, 64, 65, 97}
VIEW View
INVARIANTS Agree RoundTrip
CHECK_DEADLOCK FALSE
