SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Idempotent Conserves Maximal Times Separated Emit
CHECK_DEADLOCK FALSE
