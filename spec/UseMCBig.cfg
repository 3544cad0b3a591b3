SPECIFICATION Spec
CONSTANTS Features = {"a", "b"}
 MaxDepth = 2
 NTrees = 3
 MaxSplits = 3
 Shift = 1
 Reset = TRUE
INVARIANT Accounted
