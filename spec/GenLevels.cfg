SPECIFICATION Spec
CONSTANTS
  Layouts = {0, 1, 2}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
