---------------------------------- MODULE OptMC ----------------------------------
(***************************************************************************)
(* C27: sizes resolved for every small table, and the recursion they lead   *)
(* to: a node of n cases is split while both parts can keep a leaf's cases. *)
(* Round = "down" cuts shares off, Known = FALSE takes shares of all cases. *)
(***************************************************************************)
EXTENDS Options, FiniteSets, Sequences
CONSTANTS MaxCases, MaxFeats, Round, Known
VARIABLES cases, known, feats, out, leafopt, tryopt, numeric, depth, leaf, mtry, todo, done
vars == <<cases, known, feats, out, leafopt, tryopt, numeric, depth, leaf, mtry, todo, done>>

Opts == {[how |-> "none", num |-> 0, den |-> 1], [how |-> "count", num |-> -1, den |-> 1], [how |-> "count", num |-> 2, den |-> 1],
         [how |-> "share", num |-> 1, den |-> 5], [how |-> "share", num |-> 1, den |-> 2], [how |-> "share", num |-> 1, den |-> 1]}
Of(o, total, d) == IF Round = "down" /\ o.how = "share"
                   THEN LET x == (o.num * total) \div o.den IN IF x > 0 THEN x ELSE d
                   ELSE Size(o, total, d)
Init == /\ cases \in 2..MaxCases /\ known \in 1..cases /\ feats \in 1..MaxFeats /\ out \in 0..(feats - 1)
        /\ leafopt \in Opts /\ tryopt \in Opts /\ numeric \in BOOLEAN /\ depth \in 0..2
        /\ leaf = 0 /\ mtry = 0 /\ todo = <<>> /\ done = {}
Resolve == /\ leaf = 0
           /\ leaf' = Of(leafopt, IF Known THEN known ELSE cases, IF numeric THEN 4 ELSE 1)
           /\ mtry' = Of(tryopt, feats - out, Root(feats - out))
           /\ todo' = <<[n |-> known, d |-> 0]>>
           /\ UNCHANGED <<cases, known, feats, out, leafopt, tryopt, numeric, depth, done>>
Top == Head(todo)
Split == /\ todo # <<>> /\ Top.n >= 2 * leaf /\ (depth = 0 \/ Top.d < depth)
         /\ \E l \in leaf..(Top.n - leaf) :
              todo' = <<[n |-> l, d |-> Top.d + 1], [n |-> Top.n - l, d |-> Top.d + 1]>> \o Tail(todo)
         /\ UNCHANGED <<cases, known, feats, out, leafopt, tryopt, numeric, depth, leaf, mtry, done>>
Leaf == /\ todo # <<>> /\ todo' = Tail(todo) /\ done' = done \cup {Top}
        /\ UNCHANGED <<cases, known, feats, out, leafopt, tryopt, numeric, depth, leaf, mtry>>
Next == Resolve \/ Split \/ Leaf
Spec == Init /\ [][Next]_vars

Positive == leaf # 0 => leaf >= 1 /\ mtry >= 1
(* a share never asks for more than there is, nor for less than its part *)
Share(o, x, total) == o.how = "share" => x <= total /\ x * o.den >= o.num * total /\ (x - 1) * o.den < o.num * total
Shares == leaf # 0 => Share(leafopt, leaf, known) /\ Share(tryopt, mtry, feats - out)
All(o, x, total) == (o.how = "share" /\ o.num = o.den) => x = total
Everything == leaf # 0 => All(tryopt, mtry, feats - out)
Sizes == \A x \in done : (x.n >= leaf \/ x.n = known) /\ (depth = 0 \/ x.d <= depth)
(* a leaf as large as all cases leaves one node *)
Whole == (leafopt.how = "share" /\ leafopt.num = leafopt.den /\ done # {}) => done = {[n |-> known, d |-> 0]}
==================================================================================
