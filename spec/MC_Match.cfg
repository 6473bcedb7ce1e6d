INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Whole Local Full Saveable
CONSTANTS Orders = 2
CHECK_DEADLOCK FALSE
