SPECIFICATION MCSpec
CONSTANTS
  BlockSet <- Blocks05
  MaxBlocks <- Max05
  SecondText <- Second05
  Runs <- Runs05
INVARIANTS Balanced NoCycle RoundTrip Emit
PROPERTIES AppendOnly05
CHECK_DEADLOCK FALSE
