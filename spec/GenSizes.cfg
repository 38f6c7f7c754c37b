SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Pieces = 20
INVARIANTS Emit
CHECK_DEADLOCK FALSE
