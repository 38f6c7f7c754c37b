SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Sets = {1, 2}
INVARIANTS Unaltered Function Emit
CHECK_DEADLOCK FALSE
