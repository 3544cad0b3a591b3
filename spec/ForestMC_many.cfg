SPECIFICATION Spec
CONSTANTS Cores = 4
 NTrees = 2
 Clamp = TRUE
 Lock = TRUE
 Fresh = TRUE
 Keep = TRUE
INVARIANTS Requested FileOk KeptOk VotesOk SeenOk
CONSTRAINT Bounded
PROPERTY Ends
