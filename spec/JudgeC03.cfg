SPECIFICATION JSpec
CONSTANT Verdict <- V_C03
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
