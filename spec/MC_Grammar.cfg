INIT Init
NEXT Next
VIEW View
CONSTANT Depth = 2
INVARIANT CanEnd
INVARIANT Final
INVARIANT Same
CHECK_DEADLOCK FALSE
