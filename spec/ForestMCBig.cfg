SPECIFICATION Spec
CONSTANTS Cores = 3
 NTrees = 5
 Clamp = TRUE
 Lock = TRUE
 Fresh = TRUE
 Keep = TRUE
INVARIANTS Requested FileOk KeptOk VotesOk SeenOk
CONSTRAINT Bounded
PROPERTY Ends
