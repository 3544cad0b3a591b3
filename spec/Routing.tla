-------------------------------- MODULE Routing --------------------------------
(***************************************************************************)
(* How a decision tree routes a case.                                       *)
(*                                                                         *)
(* A data set is a sequence of columns                                      *)
(*    [name, kind \in {"num","cat"}, val, miss]                             *)
(* whose val and miss are sequences over the cases.  A tree is a sequence   *)
(* of nodes, the root first:                                                *)
(*    [kind \in {"num","cat","leaf"}, feat, value, left, l, r, m, pred]     *)
(* l, r and m are node numbers, 0 where there is no such child.  Numbers    *)
(* are rationals (module Rat).                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Rat

InSeq(x, s) == \E i \in DOMAIN s : s[i] = x

HasFeature(data, name) == \E f \in DOMAIN data : data[f].name = name
Column(data, name) == data[CHOOSE f \in DOMAIN data : data[f].name = name]
NCases(data) == Len(data[1].miss)

(* the side a node's splitter sends a case to; data without the feature holds  *)
(* no value of it                                                              *)
Side(nd, data, c) ==
  LET col == Column(data, nd.feat)
  IN IF ~HasFeature(data, nd.feat) THEN "M"
     ELSE IF col.miss[c] THEN "M"
     ELSE IF nd.kind = "num"
          THEN IF RLe(col.val[c], nd.value) THEN "L" ELSE "R"
          ELSE IF InSeq(col.val[c], nd.left) THEN "L" ELSE "R"

IsLeaf(nd) == nd.l = 0 /\ nd.r = 0

ChildOn(nd, side) == CASE side = "L" -> nd.l [] side = "R" -> nd.r [] side = "M" -> nd.m

(* the leaf a case ends in, 0 if it is dropped at a missing value *)
RECURSIVE RouteFrom(_, _, _, _)
RouteFrom(tree, data, c, i) ==
  LET nd == tree[i]
  IN IF nd.kind = "leaf" THEN i
     ELSE LET k == ChildOn(nd, Side(nd, data, c))
          IN IF k = 0 THEN 0 ELSE RouteFrom(tree, data, c, k)

Route(tree, data, c) == RouteFrom(tree, data, c, 1)

(* the predictions a case receives from one traversal: one, or none *)
PredOf(tree, data, c) ==
  LET i == Route(tree, data, c) IN IF i = 0 THEN <<>> ELSE <<tree[i].pred>>

WellFormed(tree) ==
  \A i \in DOMAIN tree :
    /\ tree[i].kind = "leaf" => tree[i].l = 0 /\ tree[i].r = 0 /\ tree[i].m = 0
    /\ tree[i].kind # "leaf" => tree[i].l > i /\ tree[i].r > i
    /\ tree[i].m # 0 => tree[i].m > i

--------------------------------------------------------------------------------
(* The walk as a state machine: the cases of a data set descend the tree     *)
(* together, the way a traversal partitions a list of cases in place.  A     *)
(* group is the list of cases waiting at a node.                             *)
CONSTANTS TreeSet, DataSet    \* the trees and data sets of an instance

VARIABLES tree, data, todo, arrived, dropped
wvars == <<tree, data, todo, arrived, dropped>>

Cases == 1..NCases(data)

WalkInit ==
  /\ tree \in TreeSet
  /\ data \in DataSet
  /\ todo = <<[node |-> 1, cases |-> [c \in 1..NCases(data) |-> c]]>>
  /\ arrived = [c \in 1..NCases(data) |-> 0]
  /\ dropped = {}

Select(s, side, nd) == SelectSeq(s, LAMBDA c : Side(nd, data, c) = side)

(* a traversal arrives at a leaf with its group *)
Arrive ==
  /\ todo # <<>>
  /\ LET g == Head(todo) IN
     /\ tree[g.node].kind = "leaf"
     /\ arrived' = [c \in Cases |-> IF InSeq(c, g.cases) THEN g.node ELSE arrived[c]]
     /\ todo' = Tail(todo)
  /\ UNCHANGED <<tree, data, dropped>>

(* a group is split in three at an internal node *)
Descend ==
  /\ todo # <<>>
  /\ LET g == Head(todo)
         nd == tree[g.node]
     IN /\ nd.kind # "leaf"
        /\ LET ls == Select(g.cases, "L", nd)
               rs == Select(g.cases, "R", nd)
               ms == Select(g.cases, "M", nd)
               kids == <<[node |-> nd.l, cases |-> ls], [node |-> nd.r, cases |-> rs]>>
           IN /\ todo' = kids \o (IF nd.m # 0 /\ ms # <<>> THEN <<[node |-> nd.m, cases |-> ms]>> ELSE <<>>)
                           \o Tail(todo)
              /\ dropped' = IF nd.m = 0 THEN dropped \cup {ms[i] : i \in DOMAIN ms} ELSE dropped
  /\ UNCHANGED <<tree, data, arrived>>

WalkNext == Arrive \/ Descend
WalkSpec == WalkInit /\ [][WalkNext]_wvars /\ WF_wvars(WalkNext)

Waiting(c) == {k \in DOMAIN todo : InSeq(c, todo[k].cases)}
(* every case is in exactly one place at any time *)
OnePlace == \A c \in Cases :
   (IF arrived[c] # 0 THEN 1 ELSE 0) + (IF c \in dropped THEN 1 ELSE 0) + Cardinality(Waiting(c)) = 1
(* a case is dropped only where its value is missing and there is no branch *)
DropOnlyMissing == \A c \in dropped : Route(tree, data, c) = 0
ArriveAtRoute == \A c \in Cases : arrived[c] # 0 => arrived[c] = Route(tree, data, c)
(* in the end everyone has arrived or been dropped *)
Ends == <>(todo = <<>>)
TypeWalk == WellFormed(tree)
================================================================================
