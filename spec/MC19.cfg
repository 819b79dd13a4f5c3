SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks19
  MaxBlocks <- Max19
  SecondText <- Second19
  Runs <- Runs19
  SecondRuns <- All19
INVARIANTS Balanced NoCycle Agreement Emit
PROPERTIES AppendOnly19
CHECK_DEADLOCK FALSE
