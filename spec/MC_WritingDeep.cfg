SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Sets = {1, 2}
INVARIANTS Unaltered Function Emit
CHECK_DEADLOCK FALSE
