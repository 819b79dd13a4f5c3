SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks07
  MaxBlocks <- Max07
  Runs <- Runs07
INVARIANTS Balanced NoCycle RollUp Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
