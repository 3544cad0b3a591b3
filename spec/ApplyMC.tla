-------------------------------- MODULE ApplyMC --------------------------------
(***************************************************************************)
(* Applying a saved forest: every tree in turn routes every case and casts  *)
(* its prediction into a box; then the box is tallied.  The data may be     *)
(* laid out differently: columns in another order, others added, cases      *)
(* never seen in training.  Variant is "ok" or a way of getting it wrong.   *)
(***************************************************************************)
EXTENDS Ballot, Routing, TLC
CONSTANTS Kinds, Variant, MaxTrees
VARIABLES kind, forest, cols, box, done
avars == <<kind, forest, cols, box, done, tree, data, todo, arrived, dropped>>
Unused == /\ tree = <<>> /\ data = <<>> /\ todo = <<>> /\ arrived = <<>> /\ dropped = {}
Rest == UNCHANGED <<tree, data, todo, arrived, dropped>>

Leaf(p) == [kind |-> "leaf", feat |-> "", value |-> "0", left |-> <<>>, l |-> 0, r |-> 0, m |-> 0, pred |-> p]
Num(v, m, p) == [kind |-> "num", feat |-> "N:x", value |-> v, left |-> <<>>, l |-> 2, r |-> 3, m |-> m, pred |-> p]
Cat(s, m, p) == [kind |-> "cat", feat |-> "C:k", value |-> "0", left |-> s, l |-> 2, r |-> 3, m |-> m, pred |-> p]
Preds == IF kind = "cat" THEN {"u", "v"} ELSE {"1", "-3"}
TreesOf == {<<Leaf(p)>> : p \in Preds}
      \cup {<<n, Leaf(p), Leaf(q)>> : n \in {Num("0", 0, "3"), Cat(<<"a">>, 0, "3")}, p \in Preds, q \in Preds}
      \cup {<<Num("0", 4, "3"), Leaf(p), Leaf(q), Leaf(p)>> : p \in Preds, q \in Preds}
X == [name |-> "N:x", kind |-> "num", val |-> <<"0", "1", "NA", "1">>, miss |-> <<FALSE, FALSE, TRUE, FALSE>>]
K == [name |-> "C:k", kind |-> "cat", val |-> <<"a", "b", "a", "new">>, miss |-> <<FALSE, FALSE, FALSE, FALSE>>]
Y == [name |-> "N:y", kind |-> "num", val |-> <<"9", "9", "9", "9">>, miss |-> <<FALSE, TRUE, FALSE, FALSE>>]
Layouts == {<<X, K>>, <<K, X>>, <<Y, K, X>>, <<K, Y, X>>}
Init == /\ kind \in Kinds /\ forest = <<>> /\ cols \in Layouts /\ box = EmptyBox(4) /\ done = 0 /\ Unused

Grow == /\ Len(forest) < MaxTrees /\ done = 0
        /\ \E t \in TreesOf, w \in {"1", "1/2", "0"} : forest' = Append(forest, [nodes |-> t, weight |-> w])
        /\ UNCHANGED <<kind, cols, box, done>> /\ Rest
WeightIn(t) == IF Variant = "unweighted" THEN "1" ELSE t.weight
PredIn(t, c) == IF Variant = "inner" /\ PredOf(t.nodes, cols, c) = <<>> THEN <<t.nodes[1].pred>> ELSE PredOf(t.nodes, cols, c)
Routed(t, c) == IF Variant = "byplace" /\ t.nodes[1].kind = "num" /\ cols[1].kind = "num"
                THEN PredOf(t.nodes, <<[cols[1] EXCEPT !.name = "N:x", !.kind = "num"]>>, c) ELSE PredIn(t, c)
RECURSIVE CastAll(_, _, _)
CastAll(b, t, c) == IF c = 0 THEN b
                    ELSE LET p == Routed(t, c) IN CastAll(IF p = <<>> THEN b ELSE CastVote(kind, b, c, p[1], WeightIn(t)), t, c - 1)
Apply == /\ done < Len(forest)
         /\ box' = TLCEval(CastAll(box, forest[done + 1], 4))
         /\ done' = done + 1
         /\ UNCHANGED <<kind, forest, cols>> /\ Rest
Next == Grow \/ Apply
Spec == Init /\ [][Next]_avars

(* the tally by its definition, on the data as they were laid out for training *)
Orig == <<X, K>>
Votes(c) == {i \in 1..done : PredOf(forest[i].nodes, Orig, c) # <<>>}
Told(i, c) == PredOf(forest[i].nodes, Orig, c)[1]
SumV(c, P(_)) == RSum([i \in 1..done |-> IF i \in Votes(c) /\ P(i) THEN forest[i].weight ELSE "0"])
Anyone(i) == TRUE
WSum(c) == RSum([i \in 1..done |-> IF i \in Votes(c) THEN RMul(forest[i].weight, Told(i, c)) ELSE "0"])
ByDefinition ==
  \A c \in 1..4 :
    CASE kind = "cat" ->
           LET tot(l) == LET is(i) == Told(i, c) = l IN SumV(c, is)
           IN IF SumV(c, Anyone) = "0" THEN ~Voted(box, c)
              ELSE Winners(box, c) = {l \in Preds : RLt("0", tot(l)) /\ \A m \in Preds : RLe(tot(m), tot(l))}
      [] kind = "num" -> IF SumV(c, Anyone) = "0" THEN ~Voted(box, c) ELSE REq(NumTally(kind, box, c), RDiv(WSum(c), SumV(c, Anyone)))
      [] OTHER -> REq(NumTally(kind, box, c), WSum(c))
================================================================================
