INIT Init
NEXT Next
CONSTRAINT Dump
INVARIANTS Survives Settled Named
PROPERTIES Framed
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
