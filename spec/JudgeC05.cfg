SPECIFICATION JSpec
CONSTANT Verdict <- V_C05
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
