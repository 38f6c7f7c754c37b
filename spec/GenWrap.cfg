SPECIFICATION Spec
CONSTANTS
  MaxWords = 4
  Lengths = {0, 1, 15, 16, 31, 32, 33, 40}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
