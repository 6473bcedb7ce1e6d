INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS UniqueIds Found LastPut
CONSTANTS Depth = 3
CHECK_DEADLOCK FALSE
