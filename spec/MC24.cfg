SPECIFICATION MC24Spec
INVARIANTS Balanced NoCycle NotAsked Prefix24 NeverAccepted Emit24
PROPERTIES StopsAtOnce
CHECK_DEADLOCK FALSE
