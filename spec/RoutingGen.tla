------------------------------- MODULE RoutingGen ------------------------------
(* Writes the trees and the data sets of RoutingMC for the driver "route".      *)
EXTENDS RoutingMC, SequencesExt
TreeSeq == SetToSeq(AllTrees)
Written == ndJsonSerialize(IOEnv.OUT, LET ts == [i \in 1..Len(TreeSeq) |-> [tree |-> TreeSeq[i]]] on(d) == <<[data |-> d]>> \o ts
                                        IN on(AllData) \o on(Lacking[1]) \o on(Lacking[2]))
VARIABLE done
GInit == done = Written /\ tree = 0 /\ data = 0 /\ todo = 0 /\ arrived = 0 /\ dropped = 0
GSpec == GInit /\ [][FALSE]_<<done, wvars>>
================================================================================
