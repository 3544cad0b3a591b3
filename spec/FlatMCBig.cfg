SPECIFICATION Spec
CONSTANTS Depth = 4 Missing = FALSE Variant = "" MaxTrees = 1
INVARIANT Exported
CHECK_DEADLOCK FALSE
