INIT Init
NEXT Next
VIEW View
INVARIANT Blanks
INVARIANT OddIsBad
INVARIANT OneMore
INVARIANT Prefix
INVARIANT LastLine
CHECK_DEADLOCK FALSE
