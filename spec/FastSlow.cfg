INIT FSInit
NEXT FSNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
