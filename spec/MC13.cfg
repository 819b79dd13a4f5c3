SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks13
  MaxBlocks <- Max13
  Runs <- Runs13
INVARIANTS Balanced NoCycle StatsShape Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
