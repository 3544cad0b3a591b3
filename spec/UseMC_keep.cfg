SPECIFICATION Spec
CONSTANTS Features = {"a", "b"}
 MaxDepth = 2
 NTrees = 2
 MaxSplits = 2
 Shift = 1
 Reset = FALSE
INVARIANT Accounted
