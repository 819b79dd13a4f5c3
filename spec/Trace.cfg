SPECIFICATION TraceSpec
INVARIANT TypeOK
INVARIANT LastBalanced
INVARIANT NoCycle
VIEW TraceView
CHECK_DEADLOCK FALSE
