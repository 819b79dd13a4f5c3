SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks18
  MaxBlocks <- Max18
  SecondText <- Second18
  Runs <- Runs18
INVARIANTS Balanced NoCycle SameReports BudgetOnly Emit
PROPERTIES AppendOnly18
CHECK_DEADLOCK FALSE
