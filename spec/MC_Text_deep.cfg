CONSTANT MaxLen = 4
INIT Init
NEXT Next
INVARIANT Escaped
INVARIANT Raw
INVARIANT Block
INVARIANT TitleFits
CHECK_DEADLOCK FALSE
