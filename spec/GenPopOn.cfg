SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
