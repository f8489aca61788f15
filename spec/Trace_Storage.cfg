INIT Init
NEXT Next
VIEW Seen
CHECK_DEADLOCK FALSE
