--------------------------------- MODULE FlatTrace -------------------------------
(***************************************************************************)
(* Forests growforest saved and exported for scikit-learn in the same run   *)
(* (C28).  Tr.cols: columns of the features, counted from zero.             *)
(*   pair   the i-th saved tree, and the i-th tree of the export            *)
(*   ended  how many trees were asked for, saved and exported               *)
(***************************************************************************)
EXTENDS TraceBase, Flat

Pair ==
  /\ IsEvent("pair") /\ Consume
  /\ Chk("arrays have the shape of a tree", Shaped(Ev.flat))
  /\ Chk("split on a feature of the data", \A i \in DOMAIN Ev.nodes : Splits(Ev.nodes[i]) => Ev.nodes[i].feat \in DOMAIN Tr.cols)
  /\ Chk("not the saved tree", Same(Ev.nodes, 1, Ev.flat, 0, Tr.cols))
  /\ Chk("number of nodes", Ev.count = Len(Ev.flat) /\ Ev.capacity = Len(Ev.flat))
  /\ Chk("depth", Ev.depth = Deep(Ev.flat))
Ended ==
  /\ IsEvent("ended") /\ Consume
  /\ Chk("trees saved", Ev.saved = Ev.want)
  /\ Chk("trees exported", Ev.exported = Ev.saved)
TraceNext == Pair \/ Ended \/ Accept
TraceSpec == BaseInit /\ [][TraceNext]_<<tid, pos>>
================================================================================
