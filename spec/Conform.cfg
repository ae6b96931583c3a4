INIT Init
NEXT Next
CONSTANT Inputs <- Cases
CHECK_DEADLOCK FALSE
