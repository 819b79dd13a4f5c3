SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks20
  MaxBlocks <- Max20
  SecondText <- Second20
  Runs <- Runs20
INVARIANTS Balanced NoCycle NoErrors SameMeaning Emit
PROPERTIES AppendOnly20
CHECK_DEADLOCK FALSE
