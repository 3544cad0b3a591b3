---------------------------------- MODULE FoldMC ----------------------------------
(***************************************************************************)
(* Dealing cases into folds: every class is shuffled and dealt in blocks,   *)
(* then every fold is tested on its own cases and trained on the others.    *)
(* Class 0 stands for a missing target; unstratified there is one class.    *)
(* Variant is "ok" or a way of getting it wrong.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MaxN, Folds, Classes, Variant
VARIABLES n, nf, class, strat, tests, train, at
vars == <<n, nf, class, strat, tests, train, at>>

Cases == 1..n
Groups == IF strat THEN 1..Classes ELSE {0}
In(g) == IF g = 0 THEN Cases ELSE {c \in Cases : class[c] = g}
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

Init == /\ n \in 0..MaxN /\ nf \in Folds /\ class \in [1..n -> 0..Classes] /\ strat \in BOOLEAN
        /\ tests = [f \in 1..nf |-> <<>>] /\ train = <<>> /\ at = 1

(* where the block of a fold begins in a shuffled class of k cases *)
Begin(f, k) == CASE Variant = "floor" -> (f - 1) * (k \div nf)
                 [] Variant = "lump" -> (f - 1) * (k \div nf)
                 [] OTHER -> ((f - 1) * k) \div nf
Over(f, k) == CASE Variant = "floor" -> f * (k \div nf)
                [] Variant = "lump" -> IF f = nf THEN k ELSE f * (k \div nf)
                [] Variant = "overlap" -> IF f = nf THEN k ELSE (f * k) \div nf + (IF (f * k) \div nf < k THEN 1 ELSE 0)
                [] OTHER -> (f * k) \div nf
Deal == /\ at <= Cardinality(Groups)
        /\ LET g == IF strat THEN at ELSE 0 IN
           \E s \in Orders(In(g)) :
              tests' = [f \in 1..nf |-> tests[f] \o SubSeq(s, Begin(f, Len(s)) + 1, Over(f, Len(s)))]
        /\ at' = at + 1 /\ UNCHANGED <<n, nf, class, strat, train>>
Write == /\ at > Cardinality(Groups) /\ Len(train) < nf
         /\ LET f == Len(train) + 1
                others == SelectSeq([j \in 1..nf |-> j], LAMBDA j : (IF Variant = "leak" THEN TRUE ELSE IF Variant = "earlier" THEN j < f ELSE j # f))
            IN train' = Append(train, FlattenSeq([k \in DOMAIN others |-> tests[others[k]]]))
         /\ UNCHANGED <<n, nf, class, strat, tests, at>>
Next == Deal \/ Write
Spec == Init /\ [][Next]_vars

Done == at > Cardinality(Groups)
Times(s, c) == Cardinality({i \in DOMAIN s : s[i] = c})
Sum(c) == LET h == [f \in 1..nf |-> Times(tests[f], c)] IN FoldLeft(LAMBDA a, b : a + b, 0, h)
Wanted == IF strat THEN {c \in Cases : class[c] # 0} ELSE Cases
Once == Done => \A c \in Cases : Sum(c) = IF c \in Wanted THEN 1 ELSE 0
Size(f, g) == Cardinality({i \in DOMAIN tests[f] : tests[f][i] \in In(g)})
Even == Done => \A g \in Groups : \A f, h \in 1..nf : Size(f, g) <= Size(h, g) + 1
Complement == \A f \in DOMAIN train : \A c \in Cases : Times(train[f], c) = IF c \in Wanted /\ Times(tests[f], c) = 0 THEN 1 ELSE 0
================================================================================
