INIT Init
NEXT Next
CONSTANT Prop = "C01"
CHECK_DEADLOCK FALSE
