SPECIFICATION Spec
CONSTANTS Depth = 2 Missing = TRUE Variant = "sibling" MaxTrees = 2
INVARIANT Exported
CHECK_DEADLOCK FALSE
