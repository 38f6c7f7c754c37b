SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Idempotent Conserves Maximal Times Separated Emit
CHECK_DEADLOCK FALSE
