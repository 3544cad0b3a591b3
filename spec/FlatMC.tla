---------------------------------- MODULE FlatMC ---------------------------------
(***************************************************************************)
(* Laying a tree out in an array, node by node.  The array is grown while    *)
(* the nodes above are still waiting for the place of their right child.    *)
(* Every tree up to a depth is laid out; nodes may have a missing branch,   *)
(* which the layout leaves out.  Variant:                                   *)
(*   ""        as intended                                                  *)
(*   early     the right child's place is noted before the left part is     *)
(*             laid out                                                     *)
(*   stale     places are noted in the array as it was when the node was    *)
(*             added: lost if the array has been moved since                *)
(*   counts    nodes of missing branches are counted, but not laid out      *)
(*   deep      the depth counts the nodes, not the steps, on the way down   *)
(*   sibling   the right child is one after the left child                  *)
(*   forests   the trees of rehearsals are kept with those of the forest    *)
(***************************************************************************)
EXTENDS Flat, TLC
CONSTANTS Depth, Missing, Variant, MaxTrees

(* trees: <<>> is a leaf, <<l, r, m>> a split, m is TRUE if there is a missing branch *)
RECURSIVE T(_)
T(d) == IF d = 0 THEN {<<>>}
        ELSE LET U == T(d - 1) IN {<<>>} \cup {<<x[1], x[2], x[3]>> : x \in U \X U \X (IF Missing THEN BOOLEAN ELSE {FALSE})}
All == T(Depth)
(* node tables as the saved forest lists them, nodes numbered in the order of the walk *)
RECURSIVE Size(_)
Size(t) == IF t = <<>> THEN 1 ELSE 1 + Size(t[1]) + Size(t[2]) + (IF t[3] THEN 1 ELSE 0)
RECURSIVE Table(_, _)
LeafNode == [kind |-> "leaf", feat |-> "", value |-> "0", l |-> 0, r |-> 0, m |-> 0]
Table(t, id) ==
  IF t = <<>> THEN <<LeafNode>>
  ELSE LET r == id + 1 + Size(t[1])
           m == r + Size(t[2])
       IN <<[kind |-> IF id % 3 = 2 THEN "cat" ELSE "num", feat |-> IF id % 2 = 0 THEN "a" ELSE "b", value |-> ToString(id),
             l |-> id + 1, r |-> r, m |-> IF t[3] THEN m ELSE 0]>>
          \o Table(t[1], id + 1) \o Table(t[2], r) \o (IF t[3] THEN <<LeafNode>> ELSE <<>>)
Cols == [a |-> 2, b |-> 0]

VARIABLES tree, todo, arr, count, cap, deep, saved, flat
vars == <<tree, todo, arr, count, cap, deep, saved, flat>>
(* todo: stack of what is still to do: [what |-> "visit", id, depth] or [what |-> "right", at, id, depth, cap] *)
Visit(id, d) == [what |-> "visit", id |-> id, depth |-> d, at |-> 0, cap |-> 0]
Right(at, id, d, c) == [what |-> "right", id |-> id, depth |-> d, at |-> at, cap |-> c]
Begin(t) == /\ tree' = Table(t, 1) /\ todo' = <<Visit(1, 0)>> /\ arr' = <<>> /\ count' = 0 /\ cap' = 1 /\ deep' = 0
Nothing == tree = <<>> /\ todo = <<>> /\ arr = <<>> /\ count = 0 /\ cap = 1 /\ deep = 0
Init == Nothing /\ saved = <<>> /\ flat = <<>>
Grow == /\ todo = <<>> /\ tree = <<>> /\ Len(saved) < MaxTrees
        /\ \E t \in All : Begin(t)
        /\ UNCHANGED <<saved, flat>>
(* the children's places are counted with the nodes *)
Do ==
  /\ todo # <<>>
  /\ LET x == Head(todo)
         n == tree[x.id]
         cap1 == IF Len(arr) + 1 > cap THEN 2 * cap ELSE cap
     IN IF x.what = "visit"
        THEN /\ count' = count + 1 + (IF Variant = "counts" /\ n.m # 0 THEN 1 ELSE 0)
             /\ deep' = Max2(deep, x.depth + (IF Variant = "deep" THEN 1 ELSE 0))
             /\ cap' = cap1
             /\ arr' = Append(arr, IF ~Splits(n) THEN [l |-> -1, r |-> -1, f |-> 0, t |-> "0"]
                                   ELSE [l |-> count', r |-> IF Variant = "early" THEN count' ELSE IF Variant = "sibling" THEN count' + 1 ELSE 0,
                                         f |-> Cols[n.feat], t |-> IF n.kind = "num" THEN n.value ELSE "0"])
             /\ todo' = IF ~Splits(n) THEN Tail(todo)
                        ELSE <<Visit(n.l, x.depth + 1), Right(count, n.r, x.depth + 1, cap1)>> \o Tail(todo)
        ELSE /\ arr' = IF Variant \in {"early", "sibling"} \/ (Variant = "stale" /\ x.cap # cap) \/ x.at + 1 > Len(arr) THEN arr
                       ELSE [arr EXCEPT ![x.at + 1].r = count]
             /\ todo' = <<Visit(x.id, x.depth)>> \o Tail(todo)
             /\ UNCHANGED <<count, cap, deep>>
  /\ UNCHANGED <<tree, saved, flat>>
(* a finished tree is kept; the rehearsals of artificial contrasts are only kept by mistake *)
Row == [nodes |-> arr, count |-> count, depth |-> deep]
Reset == tree' = <<>> /\ todo' = <<>> /\ arr' = <<>> /\ count' = 0 /\ cap' = 1 /\ deep' = 0
Keep == /\ todo = <<>> /\ tree # <<>>
        /\ saved' = Append(saved, tree) /\ flat' = Append(flat, Row) /\ Reset
Rehearse == /\ todo = <<>> /\ tree # <<>> /\ saved = <<>> /\ Len(flat) < 1
            /\ saved' = saved /\ flat' = (IF Variant = "forests" THEN Append(flat, Row) ELSE flat) /\ Reset
Next == Grow \/ Do \/ Keep \/ Rehearse
Spec == Init /\ [][Next]_vars

IsTree(nodes, x) ==
  /\ Shaped(x.nodes)
  /\ Same(nodes, 1, x.nodes, 0, Cols)
  /\ x.nodes = Flatten(nodes, 1, 0, Cols)
  /\ x.count = Len(x.nodes)
  /\ x.depth = Deep(x.nodes)
Exported == /\ (saved # <<>> => Len(flat) = Len(saved))
            /\ \A i \in 1..Len(saved) : IsTree(saved[i], flat[i])
(* two different trees are never laid out alike: what is left out is only the missing branches *)
RECURSIVE Bare(_)
Bare(t) == IF t = <<>> THEN <<>> ELSE <<Bare(t[1]), Bare(t[2])>>
ASSUME Distinct == LET U == T(2) IN \A s, t \in U : Flatten(Table(s, 1), 1, 0, [a |-> 0, b |-> 0]) = Flatten(Table(t, 1), 1, 0, [a |-> 0, b |-> 0]) => Bare(s) = Bare(t)
================================================================================
