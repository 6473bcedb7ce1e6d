INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Exact Pointed
CONSTANTS Rows = 2
CHECK_DEADLOCK FALSE
