INIT Init
NEXT Next
INVARIANT Fine
INVARIANT Sum_
INVARIANT Finished
INVARIANT InOrder
CONSTANT Most = 3
CONSTANT Inputs <- AllInputs
CHECK_DEADLOCK FALSE
