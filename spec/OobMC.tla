---------------------------------- MODULE OobMC ---------------------------------
(***************************************************************************)
(* Out of bag accounting of one worker: for every tree the bag is drawn     *)
(* from the cases whose target is known, the out of bag list is rebuilt     *)
(* from it, and the tree votes for the cases of that list only.  Fresh =    *)
(* FALSE keeps the in bag marks of earlier trees, FromAll = TRUE also draws *)
(* cases whose target is missing.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS NCases, NTrees, Size, Fresh, FromAll
Cases == 1..NCases
VARIABLES known, bag, bags, marked, oob, k, pc, votes
vars == <<known, bag, bags, marked, oob, k, pc, votes>>

Init == /\ known \in (SUBSET Cases) \ {{}}
        /\ bag = <<>> /\ bags = <<>> /\ marked = {} /\ oob = {} /\ k = 0 /\ pc = "sample"
        /\ votes = [c \in Cases |-> {}]
Sample == /\ pc = "sample" /\ k < NTrees
          /\ IF Len(bag) < Size
             THEN /\ \E c \in (IF FromAll THEN Cases ELSE known) : bag' = Append(bag, c)
                  /\ UNCHANGED pc
             ELSE bag' = bag /\ pc' = "mark"
          /\ UNCHANGED <<known, bags, marked, oob, k, votes>>
Mark == /\ pc = "mark" /\ pc' = "vote"
        /\ marked' = (IF Fresh THEN {} ELSE marked) \cup {bag[i] : i \in DOMAIN bag}
        /\ oob' = Cases \ marked'
        /\ bags' = Append(bags, {bag[i] : i \in DOMAIN bag})
        /\ UNCHANGED <<known, bag, k, votes>>
Vote == /\ pc = "vote" /\ pc' = "sample"
        /\ votes' = [c \in Cases |-> IF c \in oob THEN votes[c] \cup {k + 1} ELSE votes[c]]
        /\ k' = k + 1 /\ bag' = <<>>
        /\ UNCHANGED <<known, bags, marked, oob>>
Next == Sample \/ Mark \/ Vote \/ (k = NTrees /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
OobOk == pc = "sample" => \A c \in Cases : votes[c] = {t \in 1..k : c \notin bags[t]}
BagOk == \A c \in Cases \ known : c \notin {bag[i] : i \in DOMAIN bag}
UnknownAlwaysOut == pc = "sample" => \A c \in Cases \ known : votes[c] = 1..k
================================================================================
