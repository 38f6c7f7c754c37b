SPECIFICATION Spec
CONSTANTS
  MaxLoads = 2
  Inline = {1, 2, 3, 4}
  Clears = {0, 1, 2, 30}
  Idle = {0, 1, 2, 40}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
