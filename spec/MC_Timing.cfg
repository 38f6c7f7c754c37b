SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Gaps = {1, 2, 4, 5, 6, 30}
  Offsets = {0, 3003, 12012}
INVARIANTS Agrees Ordered
CHECK_DEADLOCK FALSE
