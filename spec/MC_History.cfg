INIT Init
NEXT Next
INVARIANT Fine
INVARIANT Sum_
INVARIANT Finished
INVARIANT InOrder
CONSTANT Most = 2
CONSTANT Inputs <- AllInputs
CHECK_DEADLOCK FALSE
