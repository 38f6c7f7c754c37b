SPECIFICATION JSpec
CONSTANT Verdict <- V_C16
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
