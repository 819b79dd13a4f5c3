SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks12
  MaxBlocks <- Max12
  Runs <- Runs12
INVARIANTS Balanced NoCycle Exact Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
