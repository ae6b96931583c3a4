INIT Init
NEXT Next
INVARIANT Laws
CONSTANT N = 4
CHECK_DEADLOCK FALSE
