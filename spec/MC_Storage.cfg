INIT Init
NEXT Next
VIEW Key
INVARIANT Whole
CHECK_DEADLOCK FALSE
