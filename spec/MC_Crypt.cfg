INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Undone Blocks Whole
CONSTANTS MaxLen = 33
CHECK_DEADLOCK FALSE
