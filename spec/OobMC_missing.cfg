SPECIFICATION Spec
CONSTANTS NCases = 3
 NTrees = 1
 Size = 2
 Fresh = TRUE
 FromAll = TRUE
INVARIANTS OobOk BagOk UnknownAlwaysOut
