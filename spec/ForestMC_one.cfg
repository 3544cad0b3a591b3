SPECIFICATION Spec
CONSTANTS Cores = 1
 NTrees = 4
 Clamp = TRUE
 Lock = TRUE
 Fresh = TRUE
 Keep = TRUE
INVARIANTS Requested FileOk KeptOk VotesOk SeenOk
CONSTRAINT Bounded
PROPERTY Ends
