INIT Init
NEXT Next
CONSTANT MaxLen = 4
INVARIANT Agrees
INVARIANT Zeros
CHECK_DEADLOCK FALSE
