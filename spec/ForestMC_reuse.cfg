SPECIFICATION Spec
CONSTANTS Cores = 2
 NTrees = 3
 Clamp = TRUE
 Lock = TRUE
 Fresh = FALSE
 Keep = TRUE
INVARIANTS Requested FileOk KeptOk VotesOk SeenOk
CONSTRAINT Bounded
PROPERTY Ends
