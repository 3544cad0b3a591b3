--------------------------------- MODULE SFGen ---------------------------------
(* Writes every sequence of up to MaxItems file items for the driver forestio:   *)
(* H header, T a tree with one node, S a tree with a split, B a malformed line.  *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT MaxItems
Items == {"H", "T", "S", "B"}
Files == UNION {[1..n -> Items] : n \in 1..MaxItems}
Written == ndJsonSerialize(IOEnv.OUT, LET q == SetToSeq(Files) IN [i \in 1..Len(q) |-> [items |-> q[i]]])
VARIABLE done
GSpec == done = Written /\ [][FALSE]_done
================================================================================
