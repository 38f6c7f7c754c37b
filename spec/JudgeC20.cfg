SPECIFICATION JSpec
CONSTANT Verdict <- V_C20
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
