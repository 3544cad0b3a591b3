SPECIFICATION Spec
CONSTANTS Depth = 2 Missing = TRUE Variant = "deep" MaxTrees = 2
INVARIANT Exported
CHECK_DEADLOCK FALSE
