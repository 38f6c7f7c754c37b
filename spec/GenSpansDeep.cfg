SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Kinds = {2, 3}
INVARIANTS Flat Emit
CHECK_DEADLOCK FALSE
