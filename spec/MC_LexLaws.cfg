INIT Init
NEXT Next
CONSTANT MaxLen = 4
INVARIANT Places
INVARIANT Order
INVARIANT Between
INVARIANT Longest
INVARIANT Separate
INVARIANT Quoting
INVARIANT Line1
CHECK_DEADLOCK FALSE
