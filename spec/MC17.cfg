SPECIFICATION MC17Spec
VIEW MC17View
INVARIANTS OlderParents UniqueNames PathsLeadBack RolledUp Additive
PROPERTIES Stable
CHECK_DEADLOCK FALSE
CONSTANT Drawing = FALSE
