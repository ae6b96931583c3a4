INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Most = 3
CONSTANT Ends = 4
CHECK_DEADLOCK FALSE
