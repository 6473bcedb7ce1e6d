INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Sound Makes Told
CONSTANTS Odd = 2
CHECK_DEADLOCK FALSE
