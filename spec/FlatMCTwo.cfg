SPECIFICATION Spec
CONSTANTS Depth = 2 Missing = TRUE Variant = "" MaxTrees = 2
INVARIANT Exported
CHECK_DEADLOCK FALSE
