SPECIFICATION Spec
INVARIANTS Distinct Fits Short Emit
CHECK_DEADLOCK FALSE
