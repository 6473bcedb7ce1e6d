INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Faithful_ Back Stable OnePlace
CONSTANTS Depth = 3
CHECK_DEADLOCK FALSE
