SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks08
  MaxBlocks <- Max08
  Runs <- Runs08
INVARIANTS Balanced NoCycle Hiding Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
