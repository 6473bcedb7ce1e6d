INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Told Kept Shown Apart InFile
CHECK_DEADLOCK FALSE
