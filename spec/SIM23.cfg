SPECIFICATION SimSpec
INVARIANTS DrawnOnce EmitTree
CHECK_DEADLOCK FALSE
CONSTANT Drawing = TRUE
