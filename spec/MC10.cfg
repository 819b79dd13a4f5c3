SPECIFICATION MCSpec
CONSTANTS
  FileSets <- Files10
  Runs <- Runs10
INVARIANTS Balanced NoCycle Partition CurrentIsEnd Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
