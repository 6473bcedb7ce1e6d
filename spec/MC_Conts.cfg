INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Own Alone Saveable
CONSTANTS Orders = 2 Single = FALSE
CHECK_DEADLOCK FALSE
