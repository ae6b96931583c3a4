INIT Init
NEXT Next
INVARIANT Found_
INVARIANT BestFit
INVARIANT Shows
INVARIANT Moves
INVARIANT Turns
CONSTANT MostCorners = 5
CHECK_DEADLOCK FALSE
CONSTANT Thin = 1
