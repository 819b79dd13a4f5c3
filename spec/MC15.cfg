SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks15
  MaxBlocks <- Max15
  Runs <- Runs15
INVARIANTS Balanced NoCycle Figures Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
