INIT Init
NEXT Next
INVARIANTS AllOrNothing Reasons Picks Zero
CONSTANT Thin = 2003
CHECK_DEADLOCK FALSE
