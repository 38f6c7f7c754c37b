SPECIFICATION JSpec
CONSTANT Verdict <- V_C02
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
