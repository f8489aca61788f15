INIT Init
NEXT Next
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
