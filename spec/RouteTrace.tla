------------------------------- MODULE RouteTrace ------------------------------
(***************************************************************************)
(* Trace validation for C01.  A trace holds a tree, a data set and what the *)
(* implementation's traversals reported: per case the list of predictions   *)
(* (for grown trees and generated trees every leaf's prediction is unique,  *)
(* so a prediction names a leaf).                                           *)
(***************************************************************************)
EXTENDS TraceBase, Routing

VARIABLE seen   \* the result of the first traversal, per case
tvars == <<tid, pos, seen, tree, data, todo, arrived, dropped>>

Unused == /\ tree = <<>> /\ data = <<>> /\ todo = <<>> /\ arrived = <<>> /\ dropped = {}
Same == UNCHANGED <<tree, data, todo, arrived, dropped>>

Expected == [c \in 1..NCases(Tr.data) |-> PredOf(Tr.tree, Tr.data, c)]

TraceInit == BaseInit /\ Unused /\ seen = <<>>

Start == /\ IsEvent("start") /\ Consume /\ Same
         /\ Chk("tree is well formed", WellFormed(Tr.tree))
         /\ seen' = Expected

(* a traversal of all cases: leaf listing, partition, voting *)
Traverse == /\ \E o \in {"leaves", "partition", "vote"} : IsEvent(o)
            /\ Consume /\ Same
            /\ Chk("every case is reported for exactly its own leaf", Len(Ev.got) = Len(seen) /\ \A c \in 1..Len(seen) : Ev.got[c] = seen[c])
            /\ Chk("nothing but the cases is reported", Ev.extra = 0)
            /\ seen' = seen

(* voting for a list of cases, in any order, with repetitions *)
VoteCases == /\ IsEvent("votecases") /\ Consume /\ Same
             /\ Chk("each occurrence of a case gets exactly its leaf's vote",
                    \A c \in 1..Len(seen) :
                      LET k == Count(Ev.cases, c) IN
                      /\ Len(Ev.got[c]) = k * Len(seen[c])
                      /\ \A i \in 1..Len(Ev.got[c]) : Ev.got[c][i] = seen[c][1])
             /\ Chk("nothing but the cases is reported", Ev.extra = 0)
             /\ seen' = seen

Finish == Accept /\ Same /\ seen' = seen

TraceNext == Start \/ Traverse \/ VoteCases \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
