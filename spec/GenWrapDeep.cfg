SPECIFICATION Spec
CONSTANTS
  MaxWords = 5
  Lengths = {0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 40}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
