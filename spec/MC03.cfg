SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks03
  MaxBlocks <- Max03
  Runs <- Runs03
INVARIANTS Balanced NoCycle AllDelivered Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
