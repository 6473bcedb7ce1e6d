INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Rendered Count Back Resolved
CONSTANTS Depth = 2
CHECK_DEADLOCK FALSE
