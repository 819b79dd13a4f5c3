SPECIFICATION MCSpec
CONSTANTS
  FileSets <- Files11
  Runs <- Runs11
INVARIANTS Balanced NoCycle Additive Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
