INIT Init
NEXT Next
VIEW View
INVARIANT Reads
CHECK_DEADLOCK FALSE
