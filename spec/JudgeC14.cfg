SPECIFICATION JSpec
CONSTANT Verdict <- V_C14
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
