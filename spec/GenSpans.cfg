SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Kinds = {2, 3, 4}
INVARIANTS Flat Emit
CHECK_DEADLOCK FALSE
