SPECIFICATION JSpec
CONSTANT Verdict <- V_C15
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
