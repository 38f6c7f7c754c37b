SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Pieces = 17
INVARIANTS Right Emit
PROPERTY Total
CHECK_DEADLOCK FALSE
