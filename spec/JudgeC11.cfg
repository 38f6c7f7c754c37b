SPECIFICATION JSpec
CONSTANT Verdict <- V_C11
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
