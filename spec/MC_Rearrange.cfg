CONSTANT Styles = {0, 5, 6}
INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Same
CHECK_DEADLOCK FALSE
