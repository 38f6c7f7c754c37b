SPECIFICATION JSpec
CONSTANT Verdict <- V_C04
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
