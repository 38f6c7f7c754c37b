SPECIFICATION JSpec
CONSTANT Verdict <- V_C06
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
