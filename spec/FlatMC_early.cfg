SPECIFICATION Spec
CONSTANTS Depth = 2 Missing = TRUE Variant = "early" MaxTrees = 2
INVARIANT Exported
CHECK_DEADLOCK FALSE
