INIT Init
NEXT Next
INVARIANT Atomic
INVARIANT Refusal
INVARIANT Faithful
CHECK_DEADLOCK FALSE
