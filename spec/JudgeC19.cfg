SPECIFICATION JSpec
CONSTANT Verdict <- V_C19
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
