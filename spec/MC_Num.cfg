INIT Init
NEXT Next
CONSTANT Most = 12
CHECK_DEADLOCK FALSE
INVARIANT Arithmetic
INVARIANT Order
INVARIANT Rounding
INVARIANT Texts
INVARIANT Kinds
INVARIANT Roots
INVARIANT Angles
INVARIANT Vectors
