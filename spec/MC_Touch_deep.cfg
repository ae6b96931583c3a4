INIT Init
NEXT Next
INVARIANT Laws
CONSTANT N = 5
CHECK_DEADLOCK FALSE
