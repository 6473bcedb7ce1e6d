INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Kept Sorted_ Stored_
CONSTANTS Depth = 4
CHECK_DEADLOCK FALSE
