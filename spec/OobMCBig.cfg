SPECIFICATION Spec
CONSTANTS NCases = 4
 NTrees = 3
 Size = 3
 Fresh = TRUE
 FromAll = FALSE
INVARIANTS OobOk BagOk UnknownAlwaysOut
