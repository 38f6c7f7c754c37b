SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
