SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks16
  MaxBlocks <- Max16
  FileSets <- Files16
  Runs <- Runs16
INVARIANTS Balanced NoCycle Emit
PROPERTIES AppendOnly ErrorFinal Untouched16
CHECK_DEADLOCK FALSE
