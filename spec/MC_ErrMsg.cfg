INIT Init
NEXT Next
INVARIANT OneLineEach
CHECK_DEADLOCK FALSE
