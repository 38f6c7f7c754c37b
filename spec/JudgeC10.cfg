SPECIFICATION JSpec
CONSTANT Verdict <- V_C10
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
