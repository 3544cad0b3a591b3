---------------------------------- MODULE JudgeMC ----------------------------------
(***************************************************************************)
(* C29: judging the tries of a search one after another.  A try comes with  *)
(* its decrease in the bag, and has one on the out of bag cases and one of  *)
(* the shuffled target.  It is judged only if its own decrease is better    *)
(* than the best so far, and vetted only if it is still better then.        *)
(* Keep says what becomes the best so far: the decrease it was judged by,   *)
(* or (wrongly) the one it came with.                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS N, Max, Keep
VARIABLES todo, oob, vet, best, kept, judged
vars == <<todo, oob, vet, best, kept, judged>>

Tries == [own : 0..Max, out : 0..Max, fake : 0..Max]
Init == /\ todo \in [1..N -> Tries] /\ oob \in BOOLEAN /\ vet \in BOOLEAN
        /\ best = 0 /\ kept = <<>> /\ judged = {}

Scored(t) == (IF oob THEN t.out ELSE t.own) - (IF vet THEN t.fake ELSE 0)
Step(worth) ==
  LET t == Head(todo)
      first == IF oob THEN t.out ELSE t.own
      x == IF t.own <= best THEN -1 ELSE IF first <= best THEN first ELSE Scored(t)
  IN /\ worth = (x > best)
     /\ todo' = Tail(todo)
     /\ judged' = judged \cup {t}
     /\ IF worth THEN best' = (IF Keep = "own" THEN t.own ELSE x) /\ kept' = <<t>> ELSE UNCHANGED <<best, kept>>
     /\ UNCHANGED <<oob, vet>>
Take == todo # <<>> /\ Step(TRUE)
Leave == todo # <<>> /\ Step(FALSE)
Next == Take \/ Leave
Spec == Init /\ [][Next]_vars

(* what is reported is what the split was judged by *)
Honest == kept # <<>> => best = Scored(kept[1]) /\ best > 0
(* nothing worth more, both in the bag and where it is judged, was passed over *)
Unbeaten == \A t \in judged : t.own > best /\ Scored(t) > best => FALSE
====================================================================================
