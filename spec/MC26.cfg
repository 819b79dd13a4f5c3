SPECIFICATION MC26Spec
VIEW MC26View
INVARIANTS OneKind
PROPERTIES OnlyMore Unmoved
CHECK_DEADLOCK FALSE
