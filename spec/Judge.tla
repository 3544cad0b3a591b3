---------------------------------- MODULE Judge ----------------------------------
(***************************************************************************)
(* C29: how a split found in the bag is judged.                             *)
(* The decrease of a split is that of the groups it makes of the judging    *)
(* cases: the cases the tree did not train on where out of bag judging is   *)
(* asked for, and otherwise the cases of its node.  Vetting subtracts the   *)
(* decrease of the best split the same feature can make of those cases      *)
(* after the target's values have been shuffled among them.                 *)
(***************************************************************************)
EXTENDS SplitSearch

GoesLeft(split, v) == IF split.kind = "num" THEN RLe(v, split.value) ELSE \E k \in DOMAIN split.left : split.left[k] = v
LeftOn(split, col, on) == SelectSeq(Present(col, on), LAMBDA c : GoesLeft(split, col.val[c]))
RightOn(split, col, on) == SelectSeq(Present(col, on), LAMBDA c : ~GoesLeft(split, col.val[c]))
Both(split, col, on) == LeftOn(split, col, on) # <<>> /\ RightOn(split, col, on) # <<>>
(* a split that leaves a side without cases is one into the other side and the missing ones *)
GainOn(T, split, col, on) ==
  LET l == LeftOn(split, col, on)
      r == RightOn(split, col, on)
      m == Absent(col, on)
  IN IF Both(split, col, on) THEN Gains(T, on, l, r, m)
     ELSE IF Maximised(T) \/ l \o r = <<>> \/ m = <<>> THEN {}
     ELSE {RSub(p, s) : p \in Imps(T, on), s \in SImps(T, l \o r, m, <<>>)}

(* what a column can gain for the target shuffled among the cases: one amount for every order of the values *)
RankOf(S, x) == Cardinality({y \in S : y < x}) + 1
Orders(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
ShuffledTo(T, on, f) ==
  LET at(c) == CHOOSE j \in DOMAIN on : on[j] = c
  IN [T EXCEPT !.val = [c \in DOMAIN T.val |-> IF \E j \in DOMAIN on : on[j] = c THEN T.val[on[f[at(c)]]] ELSE T.val[c]]]
Greatest(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
BestOn(T, col, on, leaf) ==
  LET A == Allowed(col, on, leaf)
      g == UNION {Gains(T, on, LeftOf(col, on, L), RightOf(col, on, L), <<>>) : L \in A}
  IN IF A = {} THEN "0" ELSE Greatest(g)
(* the shuffled target is judged by the plain measure of its kind *)
Plain(T) == [T EXCEPT !.type = IF Len(T.cats) > 0 THEN "gini" ELSE "num"]
VetGains(T, col, on, leaf) ==
  {BestOn(x, col, on, leaf) : x \in {ShuffledTo(Plain(T), on, f) : f \in Orders(Len(on))}}
================================================================================
