-------------------------------- MODULE SortGen --------------------------------
(* Writes every array of up to N values for the driver "sorts".                 *)
EXTENDS IntroSort, Json, IOUtils, SequencesExt
Arrays == UNION {[1..k -> Values] : k \in 0..N}
ArraySeq == SetToSeq(Arrays)
Written == ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(ArraySeq) |-> [vs |-> ArraySeq[k]]])
GInit == Written /\ vs0 = 0 /\ vs = 0 /\ cs = 0 /\ n = 0 /\ stack = 0 /\ pc = "" /\ lo = 0 /\ hi = 0 /\ a = 0 /\ b = 0 /\ c = 0 /\ d = 0 /\ i = 0 /\ j = 0
GSpec == GInit /\ [][FALSE]_svars
================================================================================
