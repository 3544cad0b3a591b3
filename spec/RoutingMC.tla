------------------------------- MODULE RoutingMC -------------------------------
(* Small instance: one numeric and one categorical feature, every combination *)
(* of their values as a case, every tree with up to three splits.             *)
EXTENDS Routing, TLC, Json, IOUtils

Leaf(p) == [kind |-> "leaf", feat |-> "", value |-> "0", left |-> <<>>, l |-> 0, r |-> 0, m |-> 0, pred |-> p]

Splitters ==
     {[kind |-> "num", feat |-> "N:x", value |-> v, left |-> <<>>] : v \in {"0", "1/2"}}
\cup {[kind |-> "cat", feat |-> "C:k", value |-> "0", left |-> s] : s \in {<<"a">>, <<"a", "b">>, <<>>}}

Node(s, l, r, m) == [kind |-> s.kind, feat |-> s.feat, value |-> s.value, left |-> s.left,
                     l |-> l, r |-> r, m |-> m, pred |-> ""]

(* one split, with or without a missing branch *)
Stumps == {<<Node(s, 2, 3, 0), Leaf("p2"), Leaf("p3")>> : s \in Splitters}
     \cup {<<Node(s, 2, 3, 4), Leaf("p2"), Leaf("p3"), Leaf("p4")>> : s \in Splitters}

(* a second split below the left, right or missing branch *)
Deep(where) ==
  {LET base == IF where = "M" \/ mm = 1 THEN 4 ELSE 3
       a == base + 1
       root == Node(s, 2, 3, IF base = 4 THEN 4 ELSE 0)
       inner == Node(t, a, a + 1, IF nn = 1 THEN a + 2 ELSE 0)
       kid(i, w) == IF where = w THEN inner ELSE Leaf("p" \o ToString(i))
   IN <<root, kid(2, "L"), kid(3, "R")>>
      \o (IF base = 4 THEN <<kid(4, "M")>> ELSE <<>>)
      \o <<Leaf("p" \o ToString(a)), Leaf("p" \o ToString(a + 1))>>
      \o (IF nn = 1 THEN <<Leaf("p" \o ToString(a + 2))>> ELSE <<>>)
   : s \in Splitters, t \in Splitters, mm \in {0, 1}, nn \in {0, 1}}

(* splits below both the left and the right branch *)
Wide ==
  {<<Node(s, 2, 3, IF mm = 1 THEN 4 ELSE 0), Node(t, 5, 6, 0), Node(u, 7, 8, 0), Leaf("p4"),
     Leaf("p5"), Leaf("p6"), Leaf("p7"), Leaf("p8")>>
   : s \in Splitters, t \in Splitters, u \in Splitters, mm \in {0, 1}}

AllTrees == {<<Leaf("p1")>>} \cup Stumps \cup Deep("L") \cup Deep("R") \cup Deep("M") \cup Wide

(* every combination of a numeric value and a category, missing included; "z"  *)
(* is a category no tree knows                                                 *)
XV == <<"0", "1/2", "1", "NA">>
KV == <<"a", "b", "z", "NA">>
At(s, i) == s[i]
AllData ==
  << [name |-> "N:x", kind |-> "num", val |-> [c \in 1..16 |-> XV[((c - 1) \div 4) + 1]],
      miss |-> [c \in 1..16 |-> XV[((c - 1) \div 4) + 1] = "NA"]],
     [name |-> "C:k", kind |-> "cat", val |-> [c \in 1..16 |-> KV[((c - 1) % 4) + 1]],
      miss |-> [c \in 1..16 |-> KV[((c - 1) % 4) + 1] = "NA"]] >>

Lacking == << <<AllData[1]>>, <<AllData[2]>> >>      \* data without one of the features
MCData == {AllData, Lacking[1], Lacking[2]}

(* generator: the same instances, written out for the implementation to run *)
SetToSeq1(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]
================================================================================
