INIT TDInit
NEXT TDNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
