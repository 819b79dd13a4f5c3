SPECIFICATION SimSpec
INVARIANTS OneOmitted ClosedBalances NowAndThen EmitHistory
PROPERTIES Kept
CHECK_DEADLOCK FALSE
