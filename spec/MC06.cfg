SPECIFICATION MCSpec
CONSTANTS
  FileSets <- Files06
  BlockSet <- Blocks06
  MaxBlocks <- Max06
  Runs <- Runs06
INVARIANTS Balanced NoCycle StableOrder Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
