INIT Init
NEXT Next
INVARIANT FirstHit
INVARIANT NoEmpty
INVARIANT Longer
CHECK_DEADLOCK FALSE
