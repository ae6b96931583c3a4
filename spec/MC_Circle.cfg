INIT Init
NEXT Next
INVARIANT Found_
INVARIANT BestFit
INVARIANT Shows
INVARIANT Moves
INVARIANT Turns
CONSTANT MostCorners = 4
CHECK_DEADLOCK FALSE
CONSTANT Thin = 5
