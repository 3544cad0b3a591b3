--------------------------------- MODULE PredMC ---------------------------------
(***************************************************************************)
(* Groups of cases built one case at a time, and reordered.  Checked for    *)
(* every type of target: a prediction exists, names a category some case of *)
(* the group has (or a number between the group's extremes), and does not   *)
(* depend on the order of the group, on unused categories or on how the     *)
(* categories are numbered.                                                 *)
(***************************************************************************)
EXTENDS Impurity, TLC
CONSTANTS MaxG, Flaw                                   \* none; unknown: a case of unknown value counts for what is stored; first: ties by numbering

VARIABLES typ, g
vars == <<typ, g>>

CatTypes == {"gini", "entropy", "ada", "adacost", "wrf", "regret", "np", "trans"}
NumTypes == {"num", "ordinal"}
F == FALSE
CV == <<"a", "b", "a", "c", "b">>
NV == <<"0", "2", "2", "5", "9">>
Skipping == {"gini", "entropy", "ada", "adacost", "wrf", "num", "ordinal"}
Cases == 1..(IF typ \in Skipping THEN 5 ELSE 4)        \* case 5's value is unknown
Par == [w |-> [a |-> "1", b |-> "3/2", c |-> "1/4", z |-> "9"], cost |-> [a |-> "2", b |-> "1/2", c |-> "3", z |-> "5"],
        pos |-> "b", alpha |-> "1/4", kappa |-> "2", unlabeled |-> "a", beta |-> "1/2", weights |-> <<"1/8", "1/2", "1/8", "1/4", "0">>, cols |-> <<>>]
T(cats) == [type |-> typ, val |-> IF typ \in CatTypes THEN CV ELSE NV, miss |-> <<F, F, F, F, TRUE>>, cats |-> cats, par |-> Par]

Init == typ \in CatTypes \cup NumTypes /\ \E c \in 1..4 : g = <<c>>
Add == Len(g) < MaxG /\ \E c \in Cases : g' = Append(g, c) /\ UNCHANGED typ
Swap == \E i \in 1..(Len(g) - 1) : g' = [g EXCEPT ![i] = g[i + 1], ![i + 1] = g[i]] /\ UNCHANGED typ
Next == Add \/ Swap
Spec == Init /\ [][Next]_vars

A == T(<<"a", "b", "c">>)
B == T(<<"c", "z", "b", "a">>)
P(t, h) == IF Flaw = "unknown" THEN Preds([t EXCEPT !.miss = <<F, F, F, F, F>>], h)
           ELSE IF Flaw = "first" /\ typ \in CatTypes THEN {t.cats[CHOOSE i \in DOMAIN t.cats : t.cats[i] \in Preds(t, h) /\ \A j \in 1..(i - 1) : t.cats[j] \notin Preds(t, h)]}
           ELSE Preds(t, h)
Asked == \E i \in DOMAIN g : g[i] < 5          \* a case of known value
Full == \A i \in DOMAIN g : g[i] < 5
Vs == {A.val[g[i]] : i \in {j \in DOMAIN g : g[j] < 5}}
Exists == Asked => P(A, g) # {}
FromGroup == Asked => LET Q == P(A, g)
             IN IF typ = "num" THEN \A p \in Q : (\E v \in Vs : RLe(v, p)) /\ (\E v \in Vs : RLe(p, v)) ELSE Q \subseteq Vs
(* cases of unknown value don't count where they may occur *)
Unknowns == Asked => P(A, g) = P(A, SelectSeq(g, LAMBDA c : c < 5))
(* unused categories and another numbering change nothing *)
Numbering == /\ Asked => P(A, g) = P(B, g)
             /\ Full => Imps(A, g) = Imps(B, g)
Order == [][(\A c \in 1..5 : Cardinality({i \in DOMAIN g : g[i] = c}) = Cardinality({i \in DOMAIN g' : g'[i] = c}))
              => /\ Asked => P(A, g) = P(A, g')
                 /\ Full => Imps(A, g) = Imps(A, g')]_vars
================================================================================
