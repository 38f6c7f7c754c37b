SPECIFICATION JSpec
CONSTANT Verdict <- V_C07
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
