INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS RoundTrips Complete Tight
CONSTANTS MaxBlocks = 3
CHECK_DEADLOCK FALSE
