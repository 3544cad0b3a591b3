------------------------------ MODULE ThreeWayGen ------------------------------
(* Writes every pattern of sides up to MaxLen for the driver "splits".         *)
EXTENDS ThreeWay, Json, IOUtils, SequencesExt
Pats == UNION {[1..n -> Sides] : n \in 0..MaxLen}
PatSeq == SetToSeq(Pats)
Written == ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(PatSeq) |-> [pat |-> PatSeq[k]]])
GInit == Written /\ side = <<>> /\ cs = <<>> /\ i = 1 /\ ll = 0 /\ lr = 1
GSpec == GInit /\ [][FALSE]_pvars
================================================================================
