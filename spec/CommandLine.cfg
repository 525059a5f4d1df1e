INIT Init
NEXT Next
INVARIANT Conforms
INVARIANT NothingEarly
CHECK_DEADLOCK TRUE
