SPECIFICATION SimSpec
INVARIANTS OlderParents UniqueNames PathsLeadBack RolledUp Additive EmitTree
PROPERTIES Stable
CHECK_DEADLOCK FALSE
CONSTANT Drawing = FALSE
