SPECIFICATION Spec
CONSTANTS Features = {"a", "b"}
 MaxDepth = 2
 NTrees = 2
 MaxSplits = 4
 Shift = 1
 Reset = TRUE
INVARIANT Accounted
