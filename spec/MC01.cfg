SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks01
  MaxBlocks <- Max01
  Runs <- Runs01
INVARIANTS Balanced Delivered Filled NoCycle Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
