SPECIFICATION JSpec
CONSTANT Verdict <- V_C13
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
