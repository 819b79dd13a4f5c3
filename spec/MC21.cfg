SPECIFICATION MCSpec
CONSTANTS
  FileSets <- Files21
  Runs <- Runs21
INVARIANTS Balanced NoCycle ReadExactly Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
