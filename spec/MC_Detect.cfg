SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Pieces = 17
INVARIANTS Right Emit
PROPERTY Total
CHECK_DEADLOCK FALSE
