CONSTANT Styles = {0, 1, 2, 3, 4, 5, 6, 7}
INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Same
CHECK_DEADLOCK FALSE
