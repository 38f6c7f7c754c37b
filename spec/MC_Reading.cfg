SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Docs = {1, 2}
INVARIANTS Isolated Content Emit
CHECK_DEADLOCK FALSE
