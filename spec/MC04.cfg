SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks04
  FileSets <- Files04
  MaxBlocks <- Max04
  Runs <- Runs04
INVARIANTS Balanced NoCycle NeverPassed Located Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
