INIT Init
NEXT Next
INVARIANT Fails
INVARIANT Gives
INVARIANT Again
INVARIANT NoOrder
INVARIANT OnlySeen
CONSTANT Most = 2
CONSTANT Thin = 23
CHECK_DEADLOCK FALSE
