SPECIFICATION MC17Spec
VIEW MC17View
INVARIANTS DrawnOnce
CHECK_DEADLOCK FALSE
CONSTANT Drawing = TRUE
