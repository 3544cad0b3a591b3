SPECIFICATION Spec
CONSTANTS NC = 4 NF = 2 Depths = {0, 1, 2} LeafSizes = {1, 2} ClearLeaf = TRUE PruneMissing = TRUE
INVARIANT Contract
CHECK_DEADLOCK FALSE
