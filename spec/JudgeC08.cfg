SPECIFICATION JSpec
CONSTANT Verdict <- V_C08
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
