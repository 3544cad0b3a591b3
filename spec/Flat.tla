----------------------------------- MODULE Flat ----------------------------------
(***************************************************************************)
(* Binary trees laid out in one array of nodes, as scikit-learn keeps them:  *)
(* a node names its children by their places (counted from zero, -1 for     *)
(* none), the feature it splits by its column, and a threshold.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Places(a) == 0..(Len(a) - 1)
At(a, p) == a[p + 1]
End(n) == n.l = -1 /\ n.r = -1
Kids(a, p) == IF End(At(a, p)) THEN {} ELSE {At(a, p).l, At(a, p).r}
(* every node is the root or the child of exactly one node that stands before it *)
Shaped(a) ==
  /\ Len(a) > 0
  /\ \A p \in Places(a) : End(At(a, p)) \/ (At(a, p).l # At(a, p).r /\ Kids(a, p) \subseteq {q \in Places(a) : q > p})
  /\ \A q \in Places(a) \ {0} : Cardinality({p \in Places(a) : q \in Kids(a, p)}) = 1
RECURSIVE DeepFrom(_, _)
Max2(x, y) == IF x > y THEN x ELSE y
DeepFrom(a, p) == IF End(At(a, p)) THEN 0 ELSE 1 + Max2(DeepFrom(a, At(a, p).l), DeepFrom(a, At(a, p).r))
Deep(a) == DeepFrom(a, 0)
(* the part of the array at p is the tree of the nodes from id; Col gives the column of a feature *)
Splits(n) == n.kind # "leaf"
RECURSIVE Same(_, _, _, _, _)
Same(nodes, id, a, p, col) ==
  LET n == nodes[id]
      x == At(a, p)
  IN IF ~Splits(n) THEN End(x)
     ELSE /\ ~End(x)
          /\ x.f = col[n.feat]
          /\ (n.kind = "num" => x.t = n.value)
          /\ Same(nodes, n.l, a, x.l, col)
          /\ Same(nodes, n.r, a, x.r, col)
(* laid out by walking the tree, a node before its left part before its right part *)
RECURSIVE Flatten(_, _, _, _)
Flatten(nodes, id, base, col) ==
  LET n == nodes[id]
  IN IF ~Splits(n) THEN <<[l |-> -1, r |-> -1, f |-> 0, t |-> "0"]>>
     ELSE LET lp == Flatten(nodes, n.l, base + 1, col)
              rp == Flatten(nodes, n.r, base + 1 + Len(lp), col)
          IN <<[l |-> base + 1, r |-> base + 1 + Len(lp), f |-> col[n.feat], t |-> IF n.kind = "num" THEN n.value ELSE "0"]>> \o lp \o rp
================================================================================
