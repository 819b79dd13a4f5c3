SPECIFICATION MCSpec
CONSTANTS
  FileSets <- Files14
  Runs <- Runs14
INVARIANTS Balanced NoCycle Attributed ChainLinked Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
