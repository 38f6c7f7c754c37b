SPECIFICATION JSpec
CONSTANT Verdict <- V_C18
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
