--------------------------------- MODULE Options ---------------------------------
(***************************************************************************)
(* What growforest's sizes mean (C27).  A size is not given ("none"), a     *)
(* count, or a share num/den of a total; one that is not positive means     *)
(* the default.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers

Ceil(a, b) == (a + b - 1) \div b
Size(o, total, default) ==
  LET x == CASE o.how = "none" -> 0 [] o.how = "count" -> o.num [] OTHER -> Ceil(o.num * total, o.den)
  IN IF x > 0 THEN x ELSE default
Root(k) == CHOOSE r \in 0..k : r * r >= k /\ (r = 0 \/ (r - 1) * (r - 1) < k)
LeafSize(o, known, numeric) == Size(o, known, IF numeric THEN 4 ELSE 1)
(* a boosted tree keeps a third of the cases on a leaf *)
BoostedLeaf(o, known) == Size(o, known, IF known < 3 THEN 1 ELSE known \div 3)
Samples(o, known) == Size(o, known, known)
MTry(o, eligible) == Size(o, eligible, Root(eligible))
==================================================================================
