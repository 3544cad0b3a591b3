SPECIFICATION Spec
CONSTANTS Depth = 3 Missing = TRUE Variant = "" MaxTrees = 1
INVARIANT Exported
CHECK_DEADLOCK FALSE
