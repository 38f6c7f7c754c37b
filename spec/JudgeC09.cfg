SPECIFICATION JSpec
CONSTANT Verdict <- V_C09
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
