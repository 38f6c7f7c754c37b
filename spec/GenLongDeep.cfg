SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
