CONSTANT MaxLen = 3
INIT Init
NEXT Next
INVARIANT Escaped
INVARIANT Raw
INVARIANT Block
INVARIANT TitleFits
CHECK_DEADLOCK FALSE
