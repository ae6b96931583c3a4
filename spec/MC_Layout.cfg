INIT Init
NEXT Next
INVARIANT Lengths
INVARIANT Middle_
INVARIANT Heads
INVARIANT Defaults
CHECK_DEADLOCK FALSE
