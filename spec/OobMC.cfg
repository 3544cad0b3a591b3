SPECIFICATION Spec
CONSTANTS NCases = 3
 NTrees = 3
 Size = 2
 Fresh = TRUE
 FromAll = FALSE
INVARIANTS OobOk BagOk UnknownAlwaysOut
