SPECIFICATION MCSpec
CONSTANTS
  FileSets <- Files02
  Runs <- Runs02
INVARIANTS Balanced NoCycle ReadsBack Emit
PROPERTIES AppendOnly ErrorFinal
CHECK_DEADLOCK FALSE
