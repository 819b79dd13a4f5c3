SPECIFICATION SimSpec
INVARIANTS OneKind EmitHistory
PROPERTIES OnlyMore Unmoved
CHECK_DEADLOCK FALSE
