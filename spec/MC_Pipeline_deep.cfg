SPECIFICATION Spec
INVARIANT Outcome
INVARIANT PageCount
INVARIANT Reported
INVARIANT Places
INVARIANT LoadedFirst
PROPERTY Grows
PROPERTY Ends
CONSTANT Most = 3
CONSTANT Inputs <- AllInputs
CHECK_DEADLOCK FALSE
