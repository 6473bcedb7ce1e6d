INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Calendar Follows Texts
CONSTANTS LastDay = 20000 Step = 1
CHECK_DEADLOCK FALSE
