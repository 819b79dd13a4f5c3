SPECIFICATION MC25Spec
VIEW MC25View
INVARIANTS OneOmitted ClosedBalances AddsUp SameCategories CountedOnce
PROPERTIES Kept
CHECK_DEADLOCK FALSE
