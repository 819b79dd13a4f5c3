SPECIFICATION TraceSpec
VIEW TraceView
INVARIANTS LastBalanced NotAsked NoCycle
CHECK_DEADLOCK FALSE
