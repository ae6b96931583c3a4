INIT Init
NEXT Next
INVARIANT Rotation
INVARIANT ByAngles
INVARIANT WholeTurns
INVARIANT Sides
INVARIANT Alone
INVARIANT Quarter
CONSTANT Step = 15
CHECK_DEADLOCK FALSE
