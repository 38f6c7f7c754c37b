SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
