INIT Init
NEXT Next
INVARIANT Laws
CONSTANT MostUp = 5
CONSTANT MostAny = 2
CHECK_DEADLOCK FALSE
