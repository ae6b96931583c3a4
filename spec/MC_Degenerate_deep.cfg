INIT Init
NEXT Next
INVARIANTS AllOrNothing Reasons Picks Zero
CONSTANT Thin = 241
CHECK_DEADLOCK FALSE
