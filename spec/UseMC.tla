---------------------------------- MODULE UseMC ---------------------------------
(***************************************************************************)
(* Importance accounting across the trees of one worker.  Growing records   *)
(* every split's gain in a running mean and the depth of the shallowest     *)
(* split on a feature in a vector the worker uses again for its next tree.  *)
(* Shift = 1 stores the depth plus one, so that zero means "not used";      *)
(* Reset clears the vector after each tree.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Features, MaxDepth, NTrees, MaxSplits, Shift, Reset
VARIABLES depth,      \* depth[f] of the worker
          count,      \* splits recorded
          uses, sum,  \* trees recorded as using f, sum of their depths
          k, splits,  \* trees finished; splits of the tree being grown
          history     \* the splits of every finished tree
vars == <<depth, count, uses, sum, k, splits, history>>

Init == /\ depth = [f \in Features |-> 0] /\ count = [f \in Features |-> 0]
        /\ uses = [f \in Features |-> 0] /\ sum = [f \in Features |-> 0]
        /\ k = 0 /\ splits = <<>> /\ history = <<>>
(* nodes come in preorder: the root first, a child at most one deeper than its predecessor *)
Split == /\ k < NTrees /\ Len(splits) < MaxSplits
         /\ \E f \in Features, d \in 0..MaxDepth :
              /\ IF splits = <<>> THEN d = 0 ELSE d > 0 /\ d <= splits[Len(splits)].d + 1
              /\ splits' = Append(splits, [f |-> f, d |-> d])
              /\ count' = [count EXCEPT ![f] = @ + 1]
              /\ depth' = [depth EXCEPT ![f] = IF @ = 0 \/ d + Shift < @ THEN d + Shift ELSE @]
         /\ UNCHANGED <<uses, sum, k, history>>
TreeDone == /\ k < NTrees
            /\ uses' = [f \in Features |-> IF depth[f] # 0 THEN uses[f] + 1 ELSE uses[f]]
            /\ sum' = [f \in Features |-> IF depth[f] # 0 THEN sum[f] + depth[f] - Shift ELSE sum[f]]
            /\ depth' = IF Reset THEN [f \in Features |-> 0] ELSE depth
            /\ history' = Append(history, splits) /\ splits' = <<>> /\ k' = k + 1
            /\ UNCHANGED count
Next == Split \/ TreeDone \/ (k = NTrees /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Of(t, f) == {t[i].d : i \in {j \in DOMAIN t : t[j].f = f}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_, _)
Sum(h, f) == IF h = <<>> THEN 0 ELSE (IF Of(Head(h), f) = {} THEN 0 ELSE Min(Of(Head(h), f))) + Sum(Tail(h), f)
RECURSIVE Total(_, _)
Total(h, f) == IF h = <<>> THEN 0 ELSE Cardinality({i \in DOMAIN Head(h) : Head(h)[i].f = f}) + Total(Tail(h), f)
Accounted == splits = <<>> => \A f \in Features :
   /\ count[f] = Total(history, f)
   /\ uses[f] = Cardinality({i \in DOMAIN history : Of(history[i], f) # {}})
   /\ sum[f] = Sum(history, f)
================================================================================
