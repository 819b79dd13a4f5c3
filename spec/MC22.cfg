SPECIFICATION Spec22
INVARIANTS Balanced Moved Emit22
PROPERTIES Final22
CHECK_DEADLOCK FALSE
