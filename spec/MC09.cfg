SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks09
  MaxBlocks <- Max09
  Runs <- Runs09
INVARIANTS Balanced NoCycle Layouts09 Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
