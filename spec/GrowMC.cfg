SPECIFICATION Spec
CONSTANTS NC = 3 NF = 2 Depths = {0, 1} LeafSizes = {1} ClearLeaf = TRUE PruneMissing = TRUE
INVARIANT Contract
CHECK_DEADLOCK FALSE
