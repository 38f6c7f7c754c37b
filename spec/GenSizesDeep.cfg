SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Pieces = 20
INVARIANTS Emit
CHECK_DEADLOCK FALSE
