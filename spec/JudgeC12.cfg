SPECIFICATION JSpec
CONSTANT Verdict <- V_C12
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
