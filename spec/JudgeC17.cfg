SPECIFICATION JSpec
CONSTANT Verdict <- V_C17
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
