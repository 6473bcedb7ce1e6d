INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Total RoundTrips Trailing NothingLost Pointed
CONSTANTS Depth = 3
CHECK_DEADLOCK FALSE
