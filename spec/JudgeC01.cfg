SPECIFICATION JSpec
CONSTANT Verdict <- V_C01
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
