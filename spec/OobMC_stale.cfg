SPECIFICATION Spec
CONSTANTS NCases = 3
 NTrees = 2
 Size = 2
 Fresh = FALSE
 FromAll = FALSE
INVARIANTS OobOk BagOk UnknownAlwaysOut
